// Reference models: when a pass depends on another one for something they share.
#include "spec.hpp"
#include "FramePass.cpp"

namespace spec
{
	inline ImageViewIdArray sources( ImageViewId const & view )
	{
		return view.data->source.empty() ? ImageViewIdArray{ view } : view.data->source;
	}
	inline AttachmentArray parts( Attachment const & attach )
	{
		if ( attach.view().data->source.empty() )
			return { attach };
		AttachmentArray result;
		for ( auto & view : attach.view().data->source )
			result.emplace_back( view, attach );
		return result;
	}
	template< typename PredT >
	bool anyPart( FramePass const & pass, ImageViewId const & view, PredT pred )
	{
		for ( auto & attach : pass.images )
		{
			for ( auto & part : parts( attach ) )
			{
				for ( auto & source : sources( view ) )
				{
					if ( crg::match( *part.view().data, *source.data ) && pred( part ) )
						return true;
				}
			}
		}
		return false;
	}
	bool writesView( FramePass const & pass, ImageViewId const & view )
	{
		return anyPart( pass, view, []( Attachment const & attach ){ return attach.isOutput(); } );
	}
	bool readsView( FramePass const & pass, ImageViewId const & view )
	{
		return anyPart( pass, view, []( Attachment const & attach ){ return attach.isInput(); } );
	}
	bool hasStorage( FramePass const & pass, Buffer const & buffer )
	{
		return std::any_of( pass.buffers.begin(), pass.buffers.end(), [&buffer]( Attachment const & attach ){ return attach.isStorageBuffer() && attach.bufferAttach.buffer == buffer; } );
	}
	bool dependsPass( FramePass const & self, FramePass const & pass )
	{
		return std::any_of( self.passDepends.begin(), self.passDepends.end(), [&pass]( FramePass const * lookup ){ return lookup->id == pass.id; } );
	}
	bool dependsView( FramePass const & self, FramePass const & pass, ImageViewId const & view, PassDependencyCache & cache )
	{
		auto & known = cache.try_emplace( &self ).first->second;
		auto [it, inserted] = known.emplace( DependencyKey{ pass.id, view.id }, false );
		if ( inserted )
		{
			it->second = std::any_of( self.passDepends.begin(), self.passDepends.end(), [&]( FramePass const * lookup )
				{
					if ( fpass::isInOutputs( *lookup, view ) )
						return lookup->id == pass.id;
					return !fpass::isInInputs( *lookup, view ) && lookup->dependsOn( pass, view, cache );
				} );
		}
		return it->second;
	}
	bool dependsBuffer( FramePass const & self, FramePass const & pass, Buffer const & buffer, PassDependencyCache & cache )
	{
		auto & known = cache.try_emplace( &self ).first->second;
		auto [it, inserted] = known.emplace( DependencyKey{ pass.id, uint64_t( buffer.buffer( 0u ) ) }, false );
		if ( inserted )
		{
			it->second = std::any_of( self.passDepends.begin(), self.passDepends.end(), [&]( FramePass const * lookup )
				{
					if ( fpass::isInOutputs( *lookup, buffer ) )
						return lookup->id == pass.id;
					return !fpass::isInInputs( *lookup, buffer ) && lookup->dependsOn( pass, buffer, cache );
				} );
		}
		return it->second;
	}
}
