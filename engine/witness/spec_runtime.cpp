// Reference models: recording of one pass, fences, per-pass resources.
#include "spec.hpp"

namespace spec
{
	inline VkDeviceSize aligned4( VkDeviceSize v )
	{
		return v % 4u ? v + ( 4u - v % 4u ) : v;
	}
	inline bool needsTransition( Attachment const & a )
	{
		return !a.isNoTransition() && ( a.isSampledView() || a.isStorageView() || a.isTransferView() || a.isTransitionView() );
	}
	inline bool needsBufferTransition( Attachment const & a )
	{
		return !a.isNoTransition() && ( a.isStorageBuffer() || a.isTransferBuffer() || a.isTransitionBuffer() );
	}
	inline void prepareImage( RunnablePass & self, RecordContext & rc, VkCommandBuffer cmd, Attachment const & a, uint32_t index )
	{
		auto view = a.view( index );
		rc.runImplicitTransition( cmd, index, view );
		if ( !needsTransition( a ) )
			return;
		auto layout = a.getImageLayout( self.m_context.separateDepthStencilLayouts );
		auto from = a.isInput() ? self.m_graph.getCurrentLayoutState( rc, view ).layout : VK_IMAGE_LAYOUT_UNDEFINED;
		if ( a.isClearableImage() )
		{
			auto & info = view.data->info;
			rc.memoryBarrier( cmd, view, from, LayoutState{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } );
			if ( isColourFormat( info.format ) )
			{
				VkClearColorValue colour{};
				self.m_context.vkCmdClearColorImage( cmd, self.m_graph.createImage( view.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &colour, 1u, &info.subresourceRange );
			}
			else
			{
				VkClearDepthStencilValue depth{};
				self.m_context.vkCmdClearDepthStencilImage( cmd, self.m_graph.createImage( view.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &depth, 1u, &info.subresourceRange );
			}
			from = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
		}
		rc.memoryBarrier( cmd, view, from, makeLayoutState( layout ) );
	}
	inline void prepareBuffer( RunnablePass & self, RecordContext & rc, VkCommandBuffer cmd, Attachment const & a, uint32_t index )
	{
		if ( !needsBufferTransition( a ) )
			return;
		auto & range = a.getBufferRange();
		auto buffer = a.buffer( index );
		auto from = rc.getAccessState( buffer, range );
		if ( a.isClearableBuffer() )
		{
			AccessState transfer{ VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
			rc.memoryBarrier( cmd, buffer, range, from.access, from.pipelineStage, transfer );
			self.m_context.vkCmdFillBuffer( cmd, buffer, aligned4( range.offset ), range.size == VK_WHOLE_SIZE ? VK_WHOLE_SIZE : aligned4( range.size ), 0u );
			from = transfer;
		}
		rc.memoryBarrier( cmd, buffer, range, from.access, from.pipelineStage
			, AccessState{ a.getAccessMask(), a.getPipelineStageFlags( self.m_callbacks.isComputePass() ) } );
	}
	void recordPass( RunnablePass & self, VkCommandBuffer cmd, uint32_t index, RecordContext & rc )
	{
		if ( self.m_ruConfig.resettable )
			self.m_passContexts[index] = rc;
		if ( self.m_callbacks.isEnabled() )
		{
			if ( !self.m_passes[index].initialised )
				self.initialise( index );
			auto block = self.m_timer.start();
			self.m_context.vkCmdBeginDebugBlock( cmd, { "[" + std::to_string( self.m_pass.id ) + "] " + self.m_pass.getGroupName(), self.m_context.getNextRainbowColour() } );
			self.m_timer.beginPass( cmd );
			for ( auto & a : self.m_pass.images )
				prepareImage( self, rc, cmd, a, index );
			for ( auto & a : self.m_pass.buffers )
				prepareBuffer( self, rc, cmd, a, index );
			for ( auto & action : self.m_ruConfig.prePassActions )
				action( rc, cmd, index );
			self.m_callbacks.record( rc, cmd, index );
			for ( auto & action : self.m_ruConfig.postPassActions )
				action( rc, cmd, index );
			self.m_timer.endPass( cmd );
			self.m_context.vkCmdEndDebugBlock( cmd );
		}
		for ( auto & entry : self.m_ruConfig.implicitActions )
			rc.registerImplicitTransition( self, entry.first, entry.second );
	}
	void initialisePass( RunnablePass & self, uint32_t index )
	{
		self.m_callbacks.initialise( index );
		self.m_passes[index].initialised = true;
	}
	uint32_t recordCurrent( RunnablePass & self, RecordContext & rc, VkCommandBuffer cmd )
	{
		auto index = self.m_callbacks.getPassIndex();
		self.recordInto( cmd, index, rc );
		return self.m_callbacks.isEnabled() ? index : ~0u;
	}
	uint32_t reRecord( RunnablePass & self )
	{
		auto index = self.m_callbacks.getPassIndex();
		if ( index < self.m_passContexts.size() )
		{
			auto saved = self.m_passContexts[index];
			self.recordOne( self.m_passes[index].commandBuffer, index, saved );
		}
		return self.m_callbacks.isEnabled() ? index : ~0u;
	}
	void recordOwn( RunnablePass & self, RunnablePass::CommandBuffer & target, uint32_t index, RecordContext & rc )
	{
		if ( !target.commandBuffer )
			target.commandBuffer = self.doCreateCommandBuffer( std::string{} );
		self.m_passes[index].fence.wait( ~uint64_t( 0 ) );
		VkCommandBufferBeginInfo info{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, nullptr, VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT, nullptr };
		self.m_context.vkBeginCommandBuffer( target.commandBuffer, &info );
		self.recordInto( target.commandBuffer, index, rc );
		self.m_context.vkEndCommandBuffer( target.commandBuffer );
	}
	void resetOwn( RunnablePass & self, uint32_t index )
	{
		if ( !self.m_context.device || !self.m_passes[index].commandBuffer.commandBuffer )
			return;
		self.m_passes[index].fence.wait( ~uint64_t( 0 ) );
		self.m_passes[index].commandBuffer.recorded = false;
		self.m_context.vkResetCommandBuffer( self.m_passes[index].commandBuffer.commandBuffer, VK_COMMAND_BUFFER_RESET_RELEASE_RESOURCES_BIT );
	}
	void notifyPass( RunnablePass & self )
	{
		if ( self.m_callbacks.isEnabled() )
			self.m_timer.notifyPassRender( self.m_callbacks.getPassIndex() );
	}
	uint32_t passIndex( RunnablePass const & self )
	{
		return self.m_callbacks.isEnabled() ? self.m_callbacks.getPassIndex() : ~0u;
	}
	// ---- fences --------------------------------------------------------------------------
	void fenceReset( Fence & self )
	{
		if ( self.m_fence )
		{
			if ( !self.m_fenceWaited )
				self.wait( ~uint64_t( 0 ) );
			self.m_context->vkResetFences( self.m_context->device, 1u, &self.m_fence );
		}
		self.m_fenceWaited = false;
	}
	VkResult fenceWait( Fence & self, uint64_t timeout )
	{
		auto res = VK_SUCCESS;
		if ( self.m_fence )
			res = self.m_context->vkWaitForFences( self.m_context->device, 1u, &self.m_fence, VK_TRUE, timeout );
		self.m_fenceWaited = true;
		return res;
	}
	// ---- submission ----------------------------------------------------------------------
	void semaphores( SemaphoreWaitArray const & toWait, std::vector< VkSemaphore > & semaphores, std::vector< VkPipelineStageFlags > & stages )
	{
		for ( auto & w : toWait )
		{
			if ( w.semaphore && std::find( semaphores.begin(), semaphores.end(), w.semaphore ) == semaphores.end() )
			{
				semaphores.push_back( w.semaphore );
				stages.push_back( w.dstStageMask );
			}
		}
	}
}
