// Reference models: transfer passes and mip generation (C21, C22).
#include "spec.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>

namespace spec
{
	inline VkImageSubresourceLayers allLayers( ImageViewId const & view )
	{
		auto & r = view.data->info.subresourceRange;
		return { r.aspectMask, r.baseMipLevel, r.baseArrayLayer, r.layerCount };
	}
	void bufferCopy( BufferCopy const & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		auto & src = self.m_pass.buffers.front();
		auto & dst = self.m_pass.buffers.back();
		auto srcRange = src.getBufferRange();
		auto dstRange = dst.getBufferRange();
		rc.memoryBarrier( cmd, src.buffer( index ), srcRange, VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, { VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } );
		rc.memoryBarrier( cmd, dst.buffer( index ), dstRange, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } );
		VkBufferCopy region{ srcRange.offset + self.m_copyOffset, dstRange.offset + self.m_copyOffset, self.m_copyRange };
		rc->vkCmdCopyBuffer( cmd, src.buffer( index ), dst.buffer( index ), 1u, &region );
		rc.memoryBarrier( cmd, dst.buffer( index ), dstRange, { VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } );
		rc.memoryBarrier( cmd, src.buffer( index ), srcRange, { VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT } );
	}
	void bufferToImage( BufferToImageCopy const & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		auto dst = self.m_pass.images.back().view( index );
		VkBufferImageCopy region{};
		region.imageSubresource = allLayers( dst );
		region.imageOffset = self.m_copyOffset;
		region.imageExtent = self.m_copySize;
		rc->vkCmdCopyBufferToImage( cmd, self.m_pass.buffers.front().buffer( index ), self.m_graph.createImage( dst.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, 1u, &region );
	}
	void imageToBuffer( ImageToBufferCopy & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		auto src = self.m_pass.images.back().view( index );
		VkBufferImageCopy region{};
		region.imageSubresource = allLayers( src );
		region.imageOffset = self.m_copyOffset;
		region.imageExtent = self.m_copySize;
		rc->vkCmdCopyImageToBuffer( cmd, self.m_graph.createImage( src.data->image ), VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, self.m_pass.buffers.front().buffer( index ), 1u, &region );
	}
	void imageBlit( ImageBlit & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		auto src = self.m_pass.images.front().view( index );
		auto dst = self.m_pass.images.back().view( index );
		VkImageBlit region{};
		region.srcSubresource = allLayers( src );
		region.srcOffsets[0] = self.m_srcOffset;
		region.srcOffsets[1] = { self.m_srcOffset.x + int32_t( self.m_srcSize.width ), self.m_srcOffset.y + int32_t( self.m_srcSize.height ), self.m_srcOffset.z + int32_t( self.m_srcSize.depth ) };
		region.dstSubresource = allLayers( dst );
		region.dstOffsets[0] = self.m_dstOffset;
		region.dstOffsets[1] = { self.m_dstOffset.x + int32_t( self.m_dstSize.width ), self.m_dstOffset.y + int32_t( self.m_dstSize.height ), self.m_dstOffset.z + int32_t( self.m_dstSize.depth ) };
		rc->vkCmdBlitImage( cmd, self.m_graph.createImage( src.data->image ), VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
			, self.m_graph.createImage( dst.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, 1u, &region, self.m_filter );
	}
	void imageCopy( ImageCopy & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		auto it = self.m_pass.images.begin();
		auto second = std::next( it );
		while ( it != self.m_pass.images.end() )
		{
			auto src = it->view( index );
			auto dst = second->view( index );
			VkImageCopy region{};
			region.srcSubresource = allLayers( src );
			region.dstSubresource = allLayers( dst );
			region.extent = self.m_copySize;
			rc->vkCmdCopyImage( cmd, self.m_graph.createImage( src.data->image ), VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
				, self.m_graph.createImage( dst.data->image ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, 1u, &region );
			if ( self.m_finalOutputLayout != VK_IMAGE_LAYOUT_UNDEFINED )
				rc.memoryBarrier( cmd, dst, makeLayoutState( self.m_finalOutputLayout ) );
			it = std::next( second );
			if ( it != self.m_pass.images.end() )
				second = std::next( it );
		}
	}
	inline int32_t dim( uint32_t extent, uint32_t level )
	{
		return std::max( 1, int32_t( extent ) >> level );
	}
	void generateMips( GenerateMipmaps & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		auto view = self.m_pass.images.front().view( index );
		auto imageId = view.data->image;
		auto & info = imageId.data->info;
		auto & viewRange = view.data->info.subresourceRange;
		auto next = self.m_graph.getNextLayoutState( rc, self, view );
		auto aspect = getAspectMask( info.format );
		LayoutState const source{ VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
		LayoutState const target{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
		for ( uint32_t i = 0u; i < viewRange.layerCount; ++i )
		{
			VkImageSubresourceRange first{ aspect, 0u, 1u, viewRange.baseArrayLayer + i, 1u };
			auto current = self.m_graph.getCurrentLayoutState( rc, imageId, view.data->info.viewType, first );
			rc.memoryBarrier( cmd, imageId, first, current.layout, source );
			for ( uint32_t level = 1u; level < info.mipLevels; ++level )
			{
				VkImageSubresourceRange range{ aspect, level, 1u, viewRange.baseArrayLayer + i, 1u };
				VkImageSubresourceRange previous{ aspect, level - 1u, 1u, viewRange.baseArrayLayer + i, 1u };
				rc.memoryBarrier( cmd, imageId, range, target );
				VkImageBlit blit{};
				blit.srcSubresource = { aspect, level - 1u, viewRange.baseArrayLayer + i, 1u };
				blit.srcOffsets[1] = { dim( info.extent.width, level - 1u ), dim( info.extent.height, level - 1u ), dim( info.extent.depth, level - 1u ) };
				blit.dstSubresource = { aspect, level, viewRange.baseArrayLayer + i, 1u };
				blit.dstOffsets[1] = { dim( info.extent.width, level ), dim( info.extent.height, level ), dim( info.extent.depth, level ) };
				self.m_context.vkCmdBlitImage( cmd, self.m_graph.createImage( imageId ), VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
					, self.m_graph.createImage( imageId ), VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, 1u, &blit, VK_FILTER_LINEAR );
				rc.memoryBarrier( cmd, imageId, previous, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, next );
				if ( level == info.mipLevels - 1u )
					rc.memoryBarrier( cmd, imageId, range, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, next );
				else
					rc.memoryBarrier( cmd, imageId, range, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, source );
			}
		}
	}
}
