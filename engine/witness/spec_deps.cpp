// Reference models: which transitions the attachments of the passes need.
#include "spec.hpp"
#include "FramePassDependenciesBuilder.cpp"

namespace spec
{
	namespace d = crg::builder::deps;
	bool inRange( uint32_t value, uint32_t left, uint32_t count )
	{
		return left <= value && value < left + count;
	}
	bool intersecting( uint32_t lhs, uint32_t lhsCount, uint32_t rhs, uint32_t rhsCount )
	{
		return ( rhs <= lhs && lhs < rhs + rhsCount ) || ( lhs <= rhs && rhs < lhs + lhsCount );
	}
	bool rangesIntersecting( VkImageSubresourceRange const & lhs, VkImageSubresourceRange const & rhs )
	{
		return intersecting( lhs.baseArrayLayer, lhs.layerCount, rhs.baseArrayLayer, rhs.layerCount )
			&& intersecting( lhs.baseMipLevel, lhs.levelCount, rhs.baseMipLevel, rhs.levelCount );
	}
	bool viewsOverlapping( ImageViewId const & lhs, ImageViewId const & rhs )
	{
		return lhs.data->image == rhs.data->image
			&& rangesIntersecting( getVirtualRange( lhs.data->image, lhs.data->info.viewType, lhs.data->info.subresourceRange )
				, getVirtualRange( rhs.data->image, rhs.data->info.viewType, rhs.data->info.subresourceRange ) );
	}
	bool buffersOverlapping( Buffer const & lhs, Buffer const & rhs )
	{
		return lhs.buffer( 0u ) == rhs.buffer( 0u );
	}
	bool singleMip( ImageViewId const & sub, ImageViewId const & main )
	{
		auto & in = main.data->info.subresourceRange;
		auto & s = sub.data->info.subresourceRange;
		return sub.data->image == main.data->image && s.levelCount == 1u && inRange( s.baseMipLevel, in.baseMipLevel, in.levelCount );
	}
	ImageViewId inputView( ImageViewId const & output, ImageViewId const & input )
	{
		return ( output == input || singleMip( output, input ) ) ? output : input;
	}
	ImageViewId outputView( ImageViewId const & output, ImageViewId const & input )
	{
		return singleMip( output, input ) ? input : output;
	}
	AttachmentArray splitView( Attachment const & attach )
	{
		auto merged = attach.view();
		if ( merged.data->source.empty() )
			return { attach };
		AttachmentArray result;
		for ( auto & source : merged.data->source )
			result.push_back( Attachment{ source, attach } );
		return result;
	}
	void splitAttachment( Attachment & self, ImageViewId view, Attachment const & origin )
	{
		self.pass = origin.pass;
		self.binding = origin.binding;
		self.name = origin.name + view.data->name;
		self.imageAttach = origin.imageAttach;
		self.imageAttach.views = { view };
		self.bufferAttach = origin.bufferAttach;
		self.flags = origin.flags;
	}
	template< typename DataT >
	void insertAttach( DataT const & data, Attachment const & attach, d::AttachesArrayT< DataT > & cont )
	{
		auto it = std::find_if( cont.begin(), cont.end(), [&data]( d::AttachesT< DataT > const & lookup ){ return lookup.data == data; } );
		if ( it == cont.end() )
		{
			cont.push_back( d::AttachesT< DataT >{ data } );
			it = std::prev( cont.end() );
		}
		if ( std::find( it->attaches.begin(), it->attaches.end(), attach ) == it->attaches.end() )
			it->attaches.push_back( attach );
	}
	void insertView( Attachment const & attach, d::ViewAttachesArray & cont )
	{
		insertAttach< ImageViewId >( attach.view(), attach, cont );
	}
	void insertBuffer( Attachment const & attach, d::BufferAttachesArray & cont )
	{
		insertAttach< Buffer >( attach.bufferAttach.buffer, attach, cont );
	}
	FramePassTransitions & insertPass( FramePass const * pass, FramePassDependencies & transitions )
	{
		auto it = std::find_if( transitions.begin(), transitions.end(), [pass]( FramePassTransitions const & lookup ){ return lookup.pass == pass; } );
		if ( it == transitions.end() )
		{
			transitions.push_back( FramePassTransitions{ pass, {} } );
			return transitions.back();
		}
		return *it;
	}
	inline bool needed( Attachment const & attach, ImageViewId *, bool input )
	{
		return input ? attach.isInput() : attach.isOutput();
	}
	inline bool needed( Attachment const & attach, Buffer *, bool input )
	{
		if ( input )
			return attach.isInput()
				&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer()
					|| attach.isStorageBufferView() || attach.isUniformBufferView() || attach.isTransitionBufferView() );
		return attach.isOutput() && ( attach.isStorageBuffer() || attach.isStorageBufferView() );
	}
	inline ImageViewId dataOf( Attachment const & attach, ImageViewId * )
	{
		return attach.view();
	}
	inline Buffer dataOf( Attachment const & attach, Buffer * )
	{
		return attach.bufferAttach.buffer;
	}
	inline AttachmentArray parts( Attachment const & attach, ImageViewId * )
	{
		return splitView( attach );
	}
	inline AttachmentArray parts( Attachment const & attach, Buffer * )
	{
		return { attach };
	}
	template< typename DataT >
	void gather( AttachmentArray const & attachs, d::AttachesArrayT< DataT > & cont, d::AttachesArrayT< DataT > & all, bool input )
	{
		DataT * tag = nullptr;
		for ( auto & attach : attachs )
		{
			if ( !needed( attach, tag, input ) )
				continue;
			for ( auto & part : parts( attach, tag ) )
			{
				auto data = dataOf( part, tag );
				for ( auto & entry : cont )
				{
					if ( d::areOverlapping( data, entry.data )
						&& std::find( entry.attaches.begin(), entry.attaches.end(), part ) == entry.attaches.end() )
						entry.attaches.push_back( part );
				}
				d::insertAttach( part, cont );
				d::insertAttach( part, all );
			}
		}
	}
	void viewInputs( AttachmentArray const & attachs, d::ViewAttachesArray & cont, d::ViewAttachesArray & all )
	{
		gather< ImageViewId >( attachs, cont, all, true );
	}
	void viewOutputs( AttachmentArray const & attachs, d::ViewAttachesArray & cont, d::ViewAttachesArray & all )
	{
		gather< ImageViewId >( attachs, cont, all, false );
	}
	void bufferInputs( AttachmentArray const & attachs, d::BufferAttachesArray & cont, d::BufferAttachesArray & all )
	{
		gather< Buffer >( attachs, cont, all, true );
	}
	void bufferOutputs( AttachmentArray const & attachs, d::BufferAttachesArray & cont, d::BufferAttachesArray & all )
	{
		gather< Buffer >( attachs, cont, all, false );
	}
	template< typename DataT >
	bool transitionDepends( DataTransitionT< DataT > const & lhs, PassDependencyCache & cache )
	{
		return lhs.inputAttach.pass && lhs.outputAttach.pass
			&& lhs.inputAttach.pass->dependsOn( *lhs.outputAttach.pass, lhs.data, cache );
	}
	template< typename DataT >
	void insertTransition( DataTransitionT< DataT > const & transition, PassDependencyCache & cache, DataTransitionArrayT< DataT > & transitions )
	{
		if ( std::find( transitions.begin(), transitions.end(), transition ) != transitions.end() )
			return;
		auto it = std::find_if( transitions.begin(), transitions.end(), [&cache]( DataTransitionT< DataT > const & lookup ){ return transitionDepends( lookup, cache ); } );
		if ( it != transitions.end() )
			transitions.insert( it, transition );
		else
			transitions.push_back( transition );
	}
	void insertViewTransition( ViewTransition const & transition, PassDependencyCache & cache, ViewTransitionArray & transitions )
	{
		insertTransition( transition, cache, transitions );
	}
	void insertBufferTransition( BufferTransition const & transition, PassDependencyCache & cache, BufferTransitionArray & transitions )
	{
		insertTransition( transition, cache, transitions );
	}
	inline ImageViewId throughInput( Attachment const & output, Attachment const & input, ImageViewId * )
	{
		return inputView( output.view(), input.view() );
	}
	inline Buffer throughInput( Attachment const & output, Attachment const & input, Buffer * )
	{
		return output.bufferAttach.buffer;
	}
	inline ImageViewId throughOutput( Attachment const & output, Attachment const & input, ImageViewId * )
	{
		return outputView( output.view(), input.view() );
	}
	inline Buffer throughOutput( Attachment const & output, Attachment const & input, Buffer * )
	{
		return output.bufferAttach.buffer;
	}
	inline ViewTransitionArray & listOf( AttachmentTransitions & transitions, ImageViewId * )
	{
		return transitions.viewTransitions;
	}
	inline BufferTransitionArray & listOf( AttachmentTransitions & transitions, Buffer * )
	{
		return transitions.bufferTransitions;
	}
	inline bool same( Attachment const & lhs, Attachment const & rhs, ImageViewId * )
	{
		return crg::match( *lhs.view().data, *rhs.view().data );
	}
	inline bool same( Attachment const & lhs, Attachment const & rhs, Buffer * )
	{
		return lhs.bufferAttach.buffer.buffer( 0u ) == rhs.bufferAttach.buffer.buffer( 0u );
	}
	template< typename DataT >
	void connect( Attachment const & output, Attachment const & input, PassDependencyCache & cache
		, FramePassDependencies & inputs, FramePassDependencies & outputs, AttachmentTransitions & all )
	{
		DataT * tag = nullptr;
		DataTransitionT< DataT > in{ throughInput( output, input, tag ), output, input };
		DataTransitionT< DataT > out{ throughOutput( output, input, tag ), output, input };
		d::insertTransition( in, cache, listOf( all, tag ) );
		if ( !same( output, input, tag ) )
			d::insertTransition( out, cache, listOf( all, tag ) );
		d::insertTransition( in, cache, listOf( d::insertPass( input.pass, inputs ).transitions, tag ) );
		d::insertTransition( out, cache, listOf( d::insertPass( output.pass, outputs ).transitions, tag ) );
	}
	void connectViews( Attachment const & output, Attachment const & input, PassDependencyCache & cache, FramePassDependencies & inputs, FramePassDependencies & outputs, AttachmentTransitions & all )
	{
		connect< ImageViewId >( output, input, cache, inputs, outputs, all );
	}
	void connectBuffers( Attachment const & output, Attachment const & input, PassDependencyCache & cache, FramePassDependencies & inputs, FramePassDependencies & outputs, AttachmentTransitions & all )
	{
		connect< Buffer >( output, input, cache, inputs, outputs, all );
	}
	template< typename DataT >
	void derive( d::AttachesArrayT< DataT > const & inputs, d::AttachesArrayT< DataT > const & outputs, d::AttachesArrayT< DataT > & all, PassDependencyCache & cache
		, FramePassDependencies & inputTransitions, FramePassDependencies & outputTransitions, AttachmentTransitions & allTransitions )
	{
		DataT * tag = nullptr;
		for ( auto & output : outputs )
		{
			for ( auto & input : inputs )
			{
				if ( !d::areOverlapping( input.data, output.data ) )
					continue;
				for ( auto & out : output.attaches )
				{
					for ( auto & in : input.attaches )
					{
						if ( in.pass->dependsOn( *out.pass, throughOutput( in, out, tag ), cache ) )
							d::addDependency< DataT >( out, in, cache, inputTransitions, outputTransitions, allTransitions );
					}
				}
				auto it = std::find_if( all.begin(), all.end(), [&input]( d::AttachesT< DataT > const & lookup ){ return lookup.data == input.data; } );
				if ( it != all.end() )
					all.erase( it );
			}
		}
		for ( auto & remaining : all )
		{
			for ( auto & attach : remaining.attaches )
				d::addRemainingDependency( attach, cache, inputTransitions, allTransitions );
		}
	}
	void deriveViews( d::ViewAttachesArray const & inputs, d::ViewAttachesArray const & outputs, d::ViewAttachesArray & all, PassDependencyCache & cache
		, FramePassDependencies & inputTransitions, FramePassDependencies & outputTransitions, AttachmentTransitions & allTransitions )
	{
		derive< ImageViewId >( inputs, outputs, all, cache, inputTransitions, outputTransitions, allTransitions );
	}
	void deriveBuffers( d::BufferAttachesArray const & inputs, d::BufferAttachesArray const & outputs, d::BufferAttachesArray & all, PassDependencyCache & cache
		, FramePassDependencies & inputTransitions, FramePassDependencies & outputTransitions, AttachmentTransitions & allTransitions )
	{
		derive< Buffer >( inputs, outputs, all, cache, inputTransitions, outputTransitions, allTransitions );
	}
	void remainingView( Attachment const & attach, PassDependencyCache & cache, FramePassDependencies & inputTransitions, ViewTransitionArray & all )
	{
		auto & mine = d::insertPass( attach.pass, inputTransitions ).transitions.viewTransitions;
		auto outside = Attachment::createDefault( attach.view() );
		bool reads = attach.isColourInputAttach() || attach.isSampledView();
		ViewTransition transition{ attach.view(), reads ? outside : attach, reads ? attach : outside };
		d::insertTransition( transition, cache, mine );
		d::insertTransition( transition, cache, all );
	}
	void remainingBuffer( Attachment const & attach, PassDependencyCache & cache, FramePassDependencies & inputTransitions, BufferTransitionArray & all )
	{
		auto & mine = d::insertPass( attach.pass, inputTransitions ).transitions.bufferTransitions;
		auto outside = Attachment::createDefault( attach.bufferAttach.buffer );
		bool reads = attach.isInput();
		BufferTransition transition{ attach.bufferAttach.buffer, reads ? outside : attach, reads ? attach : outside };
		d::insertTransition( transition, cache, mine );
		d::insertTransition( transition, cache, all );
	}
	void remaining( Attachment const & attach, PassDependencyCache & cache, FramePassDependencies & inputTransitions, AttachmentTransitions & all )
	{
		if ( attach.isImage() )
			d::addRemainingDependency( attach, cache, inputTransitions, all.viewTransitions );
		else
			d::addRemainingDependency( attach, cache, inputTransitions, all.bufferTransitions );
	}
	void buildDependencies( GraphNodePtrArray const & nodes, PassDependencyCache & images, PassDependencyCache & buffers
		, FramePassDependencies & inputs, FramePassDependencies & outputs, AttachmentTransitions & all )
	{
		d::ViewAttachesArray viewIn, viewOut, viewAll;
		d::BufferAttachesArray bufferIn, bufferOut, bufferAll;
		for ( auto & node : nodes )
		{
			auto pass = getFramePass( *node );
			d::processInputAttachs( pass->images, viewIn, viewAll );
			d::processOutputAttachs( pass->images, viewOut, viewAll );
			d::processInputAttachs( pass->buffers, bufferIn, bufferAll );
			d::processOutputAttachs( pass->buffers, bufferOut, bufferAll );
			d::insertPass( pass, inputs );
			d::insertPass( pass, outputs );
		}
		d::buildPassDependencies( viewIn, viewOut, viewAll, images, inputs, outputs, all );
		d::buildPassDependencies( bufferIn, bufferOut, bufferAll, buffers, inputs, outputs, all );
	}
}
