// Reference models: recording and submission of a whole graph.
#include "spec.hpp"

namespace spec
{
	using PassIt = std::vector< RunnablePassPtr >::iterator;
	inline PipelineState nextState( PipelineState state, PassIt it, PassIt end )
	{
		while ( it != end && !( *it )->isEnabled() )
			++it;
		return ( it != end && ( *it )->isEnabled() ) ? ( *it )->getPipelineState() : state;
	}
	inline LayerLayoutStates commonRanges( LayerLayoutStatesMap nextLayouts, LayerLayoutStatesMap::value_type const & current )
	{
		LayerLayoutStates result;
		if ( auto nextIt = nextLayouts.find( current.first ); nextIt != nextLayouts.end() )
		{
			auto & nextLayers = nextIt->second;
			for ( auto & [layer, levels] : current.second )
			{
				auto nextLayer = nextLayers.find( layer );
				if ( nextLayer != nextLayers.end() )
				{
					auto target = result.try_emplace( layer ).first;
					for ( auto & [level, unused] : levels )
					{
						auto nextLevel = nextLayer->second.find( level );
						if ( nextLevel != nextLayer->second.end() )
							target->second.emplace( *nextLevel );
					}
				}
			}
		}
		return result;
	}
	inline LayerLayoutStatesMap nextLayouts( LayerLayoutStatesMap current, PassIt it, PassIt end )
	{
		LayerLayoutStatesMap result;
		while ( !current.empty() && it != end )
		{
			if ( auto const & pass = **it; pass.isEnabled() )
			{
				auto & next = pass.getImageLayouts();
				auto cur = current.begin();
				while ( cur != current.end() )
				{
					if ( auto states = commonRanges( next, *cur ); !states.empty() )
					{
						result.try_emplace( cur->first, std::move( states ) );
						cur = current.erase( cur );
					}
					else
					{
						++cur;
					}
				}
			}
			++it;
		}
		return result;
	}
	void recordGraph( RunnableGraph & self )
	{
		auto block = self.m_timer.start();
		self.m_states.clear();
		RecordContext rc{ self.m_resources };
		for ( auto & dependency : self.m_graph.getDependencies() )
		{
			rc.addStates( dependency->getFinalStates() );
			self.m_states.try_emplace( dependency, dependency->getFinalStates().getIndexState() );
		}
		auto & indices = self.m_states.try_emplace( &self.m_graph ).first->second;
		indices.resize( self.m_passes.size() );
		if ( !self.m_passes.empty() )
		{
			rc.setNextPipelineState( self.m_passes.front()->getPipelineState(), self.m_passes.front()->getImageLayouts() );
			self.m_fence.wait( ~uint64_t( 0 ) );
			self.m_context.vkResetCommandBuffer( self.m_commandBuffer, 0u );
			VkCommandBufferBeginInfo info{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, nullptr, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT, nullptr };
			self.m_context.vkBeginCommandBuffer( self.m_commandBuffer, &info );
			self.m_timer.beginPass( self.m_commandBuffer );
			auto it = indices.begin();
			auto cur = self.m_passes.begin();
			auto next = std::next( cur );
			while ( cur != self.m_passes.end() )
			{
				auto const & pass = *cur;
				++cur;
				if ( next != self.m_passes.end() )
				{
					rc.setNextPipelineState( nextState( pass->getPipelineState(), next, self.m_passes.end() ), nextLayouts( pass->getImageLayouts(), next, self.m_passes.end() ) );
					++next;
				}
				else
				{
					rc.setNextPipelineState( pass->getPipelineState(), self.m_graph.getOutputLayoutStates() );
				}
				*it = pass->recordCurrentInto( rc, self.m_commandBuffer );
				++it;
			}
			self.m_timer.endPass( self.m_commandBuffer );
			self.m_context.vkEndCommandBuffer( self.m_commandBuffer );
		}
		self.m_graph.registerFinalState( rc );
	}
	SemaphoreWaitArray runGraph( RunnableGraph & self, SemaphoreWaitArray const & toWait, VkQueue queue )
	{
		self.record();
		std::vector< VkSemaphore > semaphores;
		std::vector< VkPipelineStageFlags > stages;
		crg::convert( toWait, semaphores, stages );
		self.m_timer.notifyPassRender();
		for ( auto & pass : self.m_passes )
			pass->notifyPassRender();
		VkSubmitInfo info{ VK_STRUCTURE_TYPE_SUBMIT_INFO, nullptr
			, uint32_t( semaphores.size() ), semaphores.data(), stages.data()
			, 1u, &self.m_commandBuffer
			, 1u, &self.m_semaphore };
		self.m_fence.reset();
		self.m_context.delQueue.clear( self.m_context );
		self.m_context.vkQueueSubmit( queue, 1u, &info, self.m_fence );
		return { SemaphoreWait{ self.m_semaphore, self.m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };
	}
	SemaphoreWaitArray runGraphOne( RunnableGraph & self, SemaphoreWait toWait, VkQueue queue )
	{
		SemaphoreWaitArray waits;
		if ( toWait.semaphore )
			waits.push_back( toWait );
		return self.run( waits, queue );
	}
	SemaphoreWaitArray runGraphNone( RunnableGraph & self, VkQueue queue )
	{
		return self.run( SemaphoreWaitArray{}, queue );
	}
	LayoutState currentState( RunnableGraph const & self, RecordContext & rc, ImageId image, VkImageViewType type, VkImageSubresourceRange range )
	{
		auto result = rc.getLayoutState( image, type, range );
		if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
			return result;
		result = self.m_graph.getInputLayoutState( image, type, range );
		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
			result = self.m_graph.getFinalLayoutState( image, type, range );
		if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
			rc.setLayoutState( image, type, range, result );
		return result;
	}
	LayoutState currentViewState( RunnableGraph const & self, RecordContext & rc, ImageViewId view )
	{
		return self.getCurrentLayoutState( rc, view.data->image, view.data->info.viewType, view.data->info.subresourceRange );
	}
	LayoutState nextViewState( RunnableGraph const & self, RecordContext const & rc, RunnablePass const & pass, ImageViewId view )
	{
		auto result = rc.getNextLayoutState( view );
		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
			result = self.m_graph.getOutputLayoutState( view );
		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
			result = pass.getLayoutState( view );
		return result;
	}
	LayoutState outputViewState( RunnableGraph const & self, ImageViewId view )
	{
		return self.m_graph.getOutputLayoutState( view );
	}
	// ---- states a graph is given and leaves
	LayoutState finalRange( FrameGraph const & self, ImageId image, VkImageViewType type, VkImageSubresourceRange const & range )
	{
		return self.m_finalState.getLayoutState( image, type, range );
	}
	LayoutState finalView( FrameGraph const & self, ImageViewId view, uint32_t index )
	{
		if ( view.data->source.empty() )
			return self.getFinalLayoutState( view.data->image, view.data->info.viewType, view.data->info.subresourceRange );
		return self.getFinalLayoutState( view.data->source[index], 0u );
	}
	AccessState const & finalBuffer( FrameGraph const & self, Buffer const & buffer, uint32_t index )
	{
		return self.m_finalState.getAccessState( buffer.buffer( index ), { 0u, VK_WHOLE_SIZE } );
	}
	void giveInput( FrameGraph & self, ImageId image, VkImageViewType type, VkImageSubresourceRange const & range, LayoutState const & layout )
	{
		self.m_inputs.setLayoutState( image, type, range, layout );
	}
	void giveInputView( FrameGraph & self, ImageViewId view, LayoutState const & layout )
	{
		self.m_inputs.setLayoutState( view.data->image, view.data->info.viewType, view.data->info.subresourceRange, layout );
	}
	void giveOutput( FrameGraph & self, ImageId image, VkImageViewType type, VkImageSubresourceRange const & range, LayoutState const & layout )
	{
		self.m_outputs.setLayoutState( image, type, range, layout );
	}
	void giveOutputView( FrameGraph & self, ImageViewId view, LayoutState const & layout )
	{
		self.m_outputs.setLayoutState( view.data->image, view.data->info.viewType, view.data->info.subresourceRange, layout );
	}
	LayoutState givenInput( FrameGraph const & self, ImageId image, VkImageViewType type, VkImageSubresourceRange const & range )
	{
		return self.m_inputs.getLayoutState( image, type, range );
	}
	LayoutState givenInputView( FrameGraph const & self, ImageViewId view )
	{
		return self.m_inputs.getLayoutState( view.data->image, view.data->info.viewType, view.data->info.subresourceRange );
	}
	LayoutState givenOutput( FrameGraph const & self, ImageId image, VkImageViewType type, VkImageSubresourceRange const & range )
	{
		return self.m_outputs.getLayoutState( image, type, range );
	}
	LayoutState givenOutputView( FrameGraph const & self, ImageViewId view )
	{
		return self.m_outputs.getLayoutState( view.data->image, view.data->info.viewType, view.data->info.subresourceRange );
	}
	LayerLayoutStatesMap const & givenOutputs( FrameGraph const & self )
	{
		return self.m_outputs.images;
	}
	void keepFinal( FrameGraph & self, RecordContext const & context )
	{
		self.m_finalState = context;
	}
}
