// Reference models: signals and their connections.
#include "spec.hpp"
#include <RenderGraph/Signal.hpp>

namespace spec
{
	using Sig = Signal< std::function< void( FramePassTimer & ) > >;
	using Con = SignalConnection< Sig >;
	using Plain = Signal< std::function< void() > >;

	// what makes the compiler define the members analysed
	void signalUses( Sig & s, Plain & p, Con & a, Con & b, FramePassTimer & timer )
	{
		s.connect( {} );
		a = std::move( b );
		Con c{ std::move( a ) };
		Con d;
		c.disconnect();
		( void )c.isValid();
		s( timer );
		p();
	}
	void signalEnds( Sig * s )
	{
		delete s;
	}

	Con signalConnect( Sig & self, std::function< void( FramePassTimer & ) > function )
	{
		auto index = self.m_slots.empty() ? 1u : self.m_slots.rbegin()->first + 1u;
		self.m_slots.emplace( index, function );
		return Con{ index, self };
	}
	void signalEmitPlain( Plain const & self )
	{
		for ( auto & slot : self.m_slots )
			slot.second();
	}
	void signalEmit( Sig const & self, FramePassTimer & timer )
	{
		for ( auto & slot : self.m_slots )
			slot.second( timer );
	}
	void signalDisconnect( Sig & self, uint32_t index )
	{
		self.m_slots.erase( index );
	}
	void signalAdd( Sig & self, Con & connection )
	{
		std::unique_lock< std::recursive_mutex > lock( self.m_mutex );
		self.m_connections.insert( &connection );
	}
	void signalRemove( Sig & self, Con & connection )
	{
		std::unique_lock< std::recursive_mutex > lock( self.m_mutex );
		self.m_connections.erase( &connection );
	}
	void connectionOf( Con & self, uint32_t connection, Sig & signal )
	{
		self.m_connection = connection;
		self.m_signal = &signal;
		signal.addConnection( self );
	}
	void connectionEmpty( Con & self )
	{
		self.m_connection = 0u;
		self.m_signal = nullptr;
	}
	void connectionMoved( Con & self, Con & rhs )
	{
		self.m_connection = rhs.m_connection;
		self.m_signal = rhs.m_signal;
		if ( rhs.m_signal )
			rhs.m_signal->remConnection( rhs );
		rhs.m_connection = 0u;
		rhs.m_signal = nullptr;
		if ( self.m_signal )
			self.m_signal->addConnection( self );
	}
	void connectionReplaced( Con & self, Con & rhs )
	{
		if ( self.m_signal && self.m_connection )
			self.m_signal->disconnect( self.m_connection );
		self.m_connection = rhs.m_connection;
		self.m_signal = rhs.m_signal;
		rhs.m_connection = 0u;
		rhs.m_signal = nullptr;
	}
	// the same, ending what the connection stood for before the other is taken
	void connectionReplacedAfter( Con & self, Con & rhs )
	{
		if ( self.m_signal && self.m_connection )
		{
			self.m_signal->disconnect( self.m_connection );
			self.m_signal = nullptr;
			self.m_connection = 0u;
		}
		auto signal = self.m_signal;
		auto connection = self.m_connection;
		self.m_connection = rhs.m_connection;
		self.m_signal = rhs.m_signal;
		rhs.m_connection = connection;
		rhs.m_signal = signal;
	}
	void connectionEnded( Con & self )
	{
		if ( self.m_signal && self.m_connection )
		{
			self.m_signal->disconnect( self.m_connection );
			self.m_signal->remConnection( self );
			self.m_signal = nullptr;
			self.m_connection = 0u;
		}
	}
	bool connectionValid( Con const & self )
	{
		return self.m_signal && self.m_connection;
	}
	void connectionSwap( Con & lhs, Con & rhs )
	{
		if ( lhs.m_signal )
			lhs.m_signal->remConnection( lhs );
		if ( rhs.m_signal )
			rhs.m_signal->remConnection( rhs );
		auto signal = lhs.m_signal;
		auto connection = lhs.m_connection;
		lhs.m_signal = rhs.m_signal;
		lhs.m_connection = rhs.m_connection;
		rhs.m_signal = signal;
		rhs.m_connection = connection;
		if ( lhs.m_signal )
			lhs.m_signal->addConnection( lhs );
		if ( rhs.m_signal )
			rhs.m_signal->addConnection( rhs );
	}
}
