// Reference models: implicit transitions and the ready-made actions of a recording.
#include "spec.hpp"

namespace spec
{
	inline void toLayout( RecordContext & rc, VkCommandBuffer cmd, ImageViewId const & view, VkImageLayout layout )
	{
		rc.memoryBarrier( cmd, view.data->image, view.data->info.viewType, view.data->info.subresourceRange, VK_IMAGE_LAYOUT_UNDEFINED
			, LayoutState{ layout, getAccessMask( layout ), getStageMask( layout ) }, false );
	}
	inline void toFinal( RecordContext & rc, VkCommandBuffer cmd, ImageViewId const & view, VkImageLayout layout )
	{
		if ( layout != VK_IMAGE_LAYOUT_UNDEFINED )
			toLayout( rc, cmd, view, layout );
	}
	inline VkImageSubresourceLayers oneLayer( ImageViewId const & view )
	{
		auto & r = view.data->info.subresourceRange;
		VkImageSubresourceLayers l{};
		l.aspectMask = r.aspectMask;
		l.mipLevel = r.baseMipLevel;
		l.baseArrayLayer = r.baseArrayLayer;
		l.layerCount = 1u;
		return l;
	}

	// ---- C18 -----------------------------------------------------------------------------
	void registerTransition3( RecordContext & self, RunnablePass const & pass, ImageViewId view, RecordContext::ImplicitAction action )
	{
		RecordContext::ImplicitTransition t{ &pass, view, action };
		self.m_implicitTransitions.push_back( t );
	}
	void registerTransition1( RecordContext & self, RecordContext::ImplicitTransition transition )
	{
		self.m_implicitTransitions.push_back( transition );
	}
	void runTransition( RecordContext & self, VkCommandBuffer cmd, uint32_t index, ImageViewId view )
	{
		auto it = std::find_if( self.m_implicitTransitions.begin(), self.m_implicitTransitions.end()
			, [&view]( RecordContext::ImplicitTransition const & t ){ return t.view == view; } );
		if ( it == self.m_implicitTransitions.end() )
			return;
		auto entry = *it;
		self.m_implicitTransitions.erase( it );
		if ( !entry.pass->isEnabled() )
			entry.action( self, cmd, index );
	}
	void nextPipeline( RecordContext & self, PipelineState const & state, LayerLayoutStatesMap const & layouts )
	{
		auto next = self.m_nextPipelineState;
		auto curr = self.m_currPipelineState;
		self.m_nextPipelineState = state;
		self.m_currPipelineState = next;
		self.m_prevPipelineState = curr;
		self.m_nextImages.images = layouts;
	}
	void mergeContext( RecordContext & self, RecordContext const & data )
	{
		for ( auto & s : data.m_images.images )
			self.m_images.images.insert( s );
		for ( auto & s : data.m_buffers )
			self.m_buffers.insert( s );
		if ( self.m_prevPipelineState.access < data.m_currPipelineState.access )
			self.m_prevPipelineState = data.m_currPipelineState;
	}
	// ---- C21 -----------------------------------------------------------------------------
	RecordContext::ImplicitAction copyImage( ImageViewId src, ImageViewId dst, VkExtent2D extent, VkImageLayout finalLayout )
	{
		return [src, dst, extent, finalLayout]( RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
		{
			auto & res = rc.getResources();
			rc.runImplicitTransition( cmd, index, src );
			toLayout( rc, cmd, src, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL );
			toLayout( rc, cmd, dst, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
			VkImageCopy region{};
			region.srcSubresource = oneLayer( src );
			region.dstSubresource = oneLayer( dst );
			region.extent = VkExtent3D{ extent.width, extent.height, 1u };
			res.m_context.vkCmdCopyImage( cmd, res.createImage( src.data->image ), VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
				, res.createImage( dst.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, 1u, &region );
			toFinal( rc, cmd, dst, finalLayout );
		};
	}
	RecordContext::ImplicitAction blitImage( ImageViewId src, ImageViewId dst, VkOffset2D srcOffset, VkExtent2D srcExtent
		, VkOffset2D dstOffset, VkExtent2D dstExtent, VkFilter filter, VkImageLayout finalLayout )
	{
		return [src, dst, srcOffset, srcExtent, dstOffset, dstExtent, filter, finalLayout]( RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
		{
			auto & res = rc.getResources();
			rc.runImplicitTransition( cmd, index, src );
			toLayout( rc, cmd, src, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL );
			toLayout( rc, cmd, dst, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
			VkImageBlit region{};
			region.srcSubresource = oneLayer( src );
			region.dstSubresource = oneLayer( dst );
			region.srcOffsets[0] = VkOffset3D{ srcOffset.x, srcOffset.y, 0 };
			region.srcOffsets[1] = VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 };
			region.dstOffsets[0] = VkOffset3D{ dstOffset.x, dstOffset.y, 0 };
			region.dstOffsets[1] = VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 };
			res.m_context.vkCmdBlitImage( cmd, res.createImage( src.data->image ), VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
				, res.createImage( dst.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, 1u, &region, filter );
			toFinal( rc, cmd, dst, finalLayout );
		};
	}
	inline void clear( RecordContext & rc, VkCommandBuffer cmd, ImageViewId const & view, VkClearValue const & value, VkImageLayout finalLayout )
	{
		auto & res = rc.getResources();
		toLayout( rc, cmd, view, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
		if ( !isDepthFormat( view.data->info.format ) && !isStencilFormat( view.data->info.format ) )
			res.m_context.vkCmdClearColorImage( cmd, res.createImage( view.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &value.color, 1u, &view.data->info.subresourceRange );
		else
			res.m_context.vkCmdClearDepthStencilImage( cmd, res.createImage( view.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &value.depthStencil, 1u, &view.data->info.subresourceRange );
		toFinal( rc, cmd, view, finalLayout );
	}
	RecordContext::ImplicitAction clearView( ImageViewId view, VkClearValue const & value, VkImageLayout finalLayout )
	{
		return [view, value, finalLayout]( RecordContext & rc, VkCommandBuffer cmd, uint32_t )
		{
			clear( rc, cmd, view, value, finalLayout );
		};
	}
	RecordContext::ImplicitAction clearAttach( Attachment attach, VkImageLayout finalLayout )
	{
		return [attach, finalLayout]( RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
		{
			clear( rc, cmd, attach.view( index ), attach.getClearValue(), finalLayout );
		};
	}
}
