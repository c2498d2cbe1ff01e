// Reference models: barriers and tracked state (RecordContext, LayerLayoutStatesHandler).
#include "spec.hpp"

namespace spec
{
	// ---- C01: image barriers -------------------------------------------------------------
	void imageBarrier( RecordContext & self, VkCommandBuffer cmd, ImageId const & image, VkImageViewType viewType
		, VkImageSubresourceRange const & wantedRange, VkImageLayout initialLayout, LayoutState const & wanted, bool force )
	{
		// with combined depth/stencil layouts, a barrier always covers both aspects of a combined format
		auto range = wantedRange;
		auto ds = range.aspectMask == VK_IMAGE_ASPECT_DEPTH_BIT || range.aspectMask == VK_IMAGE_ASPECT_STENCIL_BIT;
		if ( ds && isDepthStencilFormat( image.data->info.format ) && !self.m_resources->m_context.separateDepthStencilLayouts )
			range.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
		// the source of the transition is the tracked state, the given initial layout when nothing is tracked
		auto tracked = self.m_images.getLayoutState( image, viewType, range );
		auto known = tracked.layout != VK_IMAGE_LAYOUT_UNDEFINED;
		auto srcLayout = known ? tracked.layout : initialLayout;
		auto srcAccess = known ? tracked.state.access : getAccessMask( initialLayout );
		auto srcStage = known ? tracked.state.pipelineStage : getStageMask( initialLayout );
		auto changes = srcLayout != wanted.layout || srcStage != wanted.state.pipelineStage;
		if ( !force && !( changes && wanted.layout != VK_IMAGE_LAYOUT_UNDEFINED ) )
			return;
		auto & res = self.getResources();
		VkImageMemoryBarrier b{};
		b.sType = VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER;
		b.pNext = nullptr;
		b.srcAccessMask = srcAccess;
		b.dstAccessMask = wanted.state.access;
		b.oldLayout = srcLayout;
		b.newLayout = wanted.layout;
		b.srcQueueFamilyIndex = VK_QUEUE_FAMILY_IGNORED;
		b.dstQueueFamilyIndex = VK_QUEUE_FAMILY_IGNORED;
		b.image = res.createImage( image );
		b.subresourceRange = range;
		res.m_context.vkCmdPipelineBarrier( cmd, srcStage, wanted.state.pipelineStage, VK_DEPENDENCY_BY_REGION_BIT, 0u, nullptr, 0u, nullptr, 1u, &b );
		self.m_images.setLayoutState( image, viewType, range, wanted );
	}
	void imageBarrierView5( RecordContext & self, VkCommandBuffer cmd, ImageViewId const & view, VkImageLayout initial, LayoutState const & wanted, bool force )
	{
		imageBarrier( self, cmd, view.data->image, view.data->info.viewType, view.data->info.subresourceRange, initial, wanted, force );
	}
	void imageBarrierView4( RecordContext & self, VkCommandBuffer cmd, ImageViewId const & view, LayoutState const & wanted, bool force )
	{
		imageBarrier( self, cmd, view.data->image, view.data->info.viewType, view.data->info.subresourceRange, VK_IMAGE_LAYOUT_UNDEFINED, wanted, force );
	}
	void imageBarrierImg6( RecordContext & self, VkCommandBuffer cmd, ImageId const & image, VkImageSubresourceRange const & range, VkImageLayout initial, LayoutState const & wanted, bool force )
	{
		imageBarrier( self, cmd, image, VkImageViewType( image.data->info.imageType ), range, initial, wanted, force );
	}
	void imageBarrierImg5( RecordContext & self, VkCommandBuffer cmd, ImageId const & image, VkImageSubresourceRange const & range, LayoutState const & wanted, bool force )
	{
		imageBarrier( self, cmd, image, VkImageViewType( image.data->info.imageType ), range, VK_IMAGE_LAYOUT_UNDEFINED, wanted, force );
	}
	void imageBarrierImg6v( RecordContext & self, VkCommandBuffer cmd, ImageId const & image, VkImageViewType viewType, VkImageSubresourceRange const & range, LayoutState const & wanted, bool force )
	{
		imageBarrier( self, cmd, image, viewType, range, VK_IMAGE_LAYOUT_UNDEFINED, wanted, force );
	}

	// ---- C03: buffer barriers ------------------------------------------------------------
	void bufferBarrier( RecordContext & self, VkCommandBuffer cmd, VkBuffer buffer, BufferSubresourceRange const & range
		, VkAccessFlags initialMask, VkPipelineStageFlags initialStage, AccessState const & wanted, bool force )
	{
		auto it = self.m_buffers.find( buffer );
		auto known = it != self.m_buffers.end() && it->second.pipelineStage != VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
		auto srcAccess = known ? it->second.access : initialMask;
		auto srcStage = known ? it->second.pipelineStage : initialStage;
		if ( !force && srcAccess == wanted.access && srcStage == wanted.pipelineStage )
			return;
		auto & res = self.getResources();
		VkBufferMemoryBarrier b{};
		b.sType = VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER;
		b.pNext = nullptr;
		b.srcAccessMask = srcAccess;
		b.dstAccessMask = wanted.access;
		b.srcQueueFamilyIndex = VK_QUEUE_FAMILY_IGNORED;
		b.dstQueueFamilyIndex = VK_QUEUE_FAMILY_IGNORED;
		b.buffer = buffer;
		b.offset = range.offset;
		b.size = range.size;
		res.m_context.vkCmdPipelineBarrier( cmd, srcStage, wanted.pipelineStage, VK_DEPENDENCY_BY_REGION_BIT, 0u, nullptr, 1u, &b, 0u, nullptr );
		self.m_buffers.insert_or_assign( buffer, wanted );
	}
	void bufferBarrier5( RecordContext & self, VkCommandBuffer cmd, VkBuffer buffer, BufferSubresourceRange const & range, AccessState const & wanted, bool force )
	{
		bufferBarrier( self, cmd, buffer, range, 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, wanted, force );
	}
	void setAccessState( RecordContext & self, VkBuffer buffer, BufferSubresourceRange const &, AccessState const & state )
	{
		self.m_buffers.insert_or_assign( buffer, state );
	}
	AccessState getAccessState( RecordContext const & self, VkBuffer buffer, BufferSubresourceRange const & )
	{
		auto it = self.m_buffers.find( buffer );
		if ( it == self.m_buffers.end() )
			return AccessState{ 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT };
		return it->second;
	}
}
