// A stand-in device for the demonstrations: every function only records its arguments as a line of text.
#pragma once
#include "Common.hpp"
#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/FramePassTimer.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/Log.hpp>
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/Signal.hpp>
#include <cstdio>
#include <string>
#include <vector>
#include <algorithm>

namespace mock
{
	inline std::vector< std::string > & calls()
	{
		static std::vector< std::string > r;
		return r;
	}
	template< typename ... A > void log( A const & ... a )
	{
		std::ostringstream s;
		( ( s << a << ' ' ), ... );
		calls().push_back( s.str() );
	}
	inline uint64_t h( void const * p ) { return uint64_t( p ); }
	inline int failures = 0;
	inline int count( std::string const & prefix )
	{
		return int( std::count_if( calls().begin(), calls().end()
			, [&]( std::string const & c ){ return c.compare( 0, prefix.size(), prefix ) == 0; } ) );
	}
	inline int find( std::string const & prefix, int from = 0 )
	{
		for ( size_t i = size_t( from ); i < calls().size(); ++i )
			if ( calls()[i].compare( 0, prefix.size(), prefix ) == 0 ) return int( i );
		return -1;
	}
	inline void dump() { for ( auto & c : calls() ) std::fprintf( stderr, "  %s\n", c.c_str() ); }
	inline void expect( bool ok, char const * what )
	{
		if ( !ok ) { ++failures; std::fprintf( stderr, "NOT AS EXPECTED: %s\n", what ); }
	}

	// The names of the functions follow those of Vulkan.
	inline crg::GraphContext & context()
	{
		auto & c = test::getDummyContext();
		c.vkCmdPipelineBarrier = PFN_vkCmdPipelineBarrier( []( VkCommandBuffer, VkPipelineStageFlags s, VkPipelineStageFlags d, VkDependencyFlags, uint32_t, const VkMemoryBarrier *, uint32_t nb, const VkBufferMemoryBarrier * b, uint32_t ni, const VkImageMemoryBarrier * i )
			{
				for ( uint32_t k = 0u; k < nb; ++k )
					log( "bufferBarrier", h( b[k].buffer ), s, b[k].srcAccessMask, "->", d, b[k].dstAccessMask, "at", b[k].offset, b[k].size );
				for ( uint32_t k = 0u; k < ni; ++k )
					log( "imageBarrier", h( i[k].image ), i[k].oldLayout, s, i[k].srcAccessMask, "->", i[k].newLayout, d, i[k].dstAccessMask, "at"
						, i[k].subresourceRange.aspectMask, i[k].subresourceRange.baseMipLevel, i[k].subresourceRange.levelCount
						, i[k].subresourceRange.baseArrayLayer, i[k].subresourceRange.layerCount );
			} );
		c.vkCmdBlitImage = PFN_vkCmdBlitImage( []( VkCommandBuffer, VkImage s, VkImageLayout, VkImage d, VkImageLayout, uint32_t n, const VkImageBlit * r, VkFilter f )
			{
				for ( uint32_t k = 0u; k < n; ++k )
					log( "blit", h( s ), r[k].srcSubresource.mipLevel, r[k].srcSubresource.baseArrayLayer
						, r[k].srcOffsets[0].x, r[k].srcOffsets[0].y, r[k].srcOffsets[0].z, r[k].srcOffsets[1].x, r[k].srcOffsets[1].y, r[k].srcOffsets[1].z
						, "->", h( d ), r[k].dstSubresource.mipLevel, r[k].dstSubresource.baseArrayLayer
						, r[k].dstOffsets[0].x, r[k].dstOffsets[0].y, r[k].dstOffsets[0].z, r[k].dstOffsets[1].x, r[k].dstOffsets[1].y, r[k].dstOffsets[1].z, f );
			} );
		c.vkCmdCopyBuffer = PFN_vkCmdCopyBuffer( []( VkCommandBuffer, VkBuffer s, VkBuffer d, uint32_t n, const VkBufferCopy * r )
			{
				for ( uint32_t k = 0u; k < n; ++k )
					log( "copyBuffer", h( s ), r[k].srcOffset, "->", h( d ), r[k].dstOffset, r[k].size );
			} );
		c.vkCmdCopyImage = PFN_vkCmdCopyImage( []( VkCommandBuffer, VkImage s, VkImageLayout, VkImage d, VkImageLayout, uint32_t n, const VkImageCopy * r )
			{
				for ( uint32_t k = 0u; k < n; ++k )
					log( "copyImage", h( s ), r[k].srcSubresource.mipLevel, r[k].srcSubresource.baseArrayLayer, r[k].srcSubresource.layerCount
						, "->", h( d ), r[k].dstSubresource.mipLevel, r[k].dstSubresource.baseArrayLayer, r[k].dstSubresource.layerCount
						, r[k].extent.width, r[k].extent.height, r[k].extent.depth );
			} );
		c.vkCmdCopyBufferToImage = PFN_vkCmdCopyBufferToImage( []( VkCommandBuffer, VkBuffer s, VkImage d, VkImageLayout l, uint32_t n, const VkBufferImageCopy * r )
			{
				for ( uint32_t k = 0u; k < n; ++k )
					log( "copyBufferToImage", h( s ), r[k].bufferOffset, "->", h( d ), l, r[k].imageSubresource.mipLevel, r[k].imageSubresource.baseArrayLayer );
			} );
		c.vkCmdCopyImageToBuffer = PFN_vkCmdCopyImageToBuffer( []( VkCommandBuffer, VkImage s, VkImageLayout l, VkBuffer d, uint32_t n, const VkBufferImageCopy * r )
			{
				for ( uint32_t k = 0u; k < n; ++k )
					log( "copyImageToBuffer", h( s ), l, r[k].imageSubresource.mipLevel, r[k].imageSubresource.baseArrayLayer, "->", h( d ), r[k].bufferOffset );
			} );
		c.vkCmdClearColorImage = PFN_vkCmdClearColorImage( []( VkCommandBuffer, VkImage i, VkImageLayout l, const VkClearColorValue *, uint32_t n, const VkImageSubresourceRange * r )
			{
				for ( uint32_t k = 0u; k < n; ++k )
					log( "clearColor", h( i ), l, r[k].baseMipLevel, r[k].levelCount, r[k].baseArrayLayer, r[k].layerCount );
			} );
		c.vkCmdClearDepthStencilImage = PFN_vkCmdClearDepthStencilImage( []( VkCommandBuffer, VkImage i, VkImageLayout l, const VkClearDepthStencilValue *, uint32_t n, const VkImageSubresourceRange * r )
			{
				for ( uint32_t k = 0u; k < n; ++k )
					log( "clearDepthStencil", h( i ), l, r[k].baseMipLevel, r[k].levelCount, r[k].baseArrayLayer, r[k].layerCount );
			} );
		c.vkCmdFillBuffer = PFN_vkCmdFillBuffer( []( VkCommandBuffer, VkBuffer b, VkDeviceSize o, VkDeviceSize s, uint32_t v ){ log( "fillBuffer", h( b ), o, s, v ); } );
		c.vkCmdDispatch = PFN_vkCmdDispatch( []( VkCommandBuffer, uint32_t x, uint32_t y, uint32_t z ){ log( "dispatch", x, y, z ); } );
		c.vkCmdDraw = PFN_vkCmdDraw( []( VkCommandBuffer, uint32_t a, uint32_t b, uint32_t e, uint32_t f ){ log( "draw", a, b, e, f ); } );
		c.vkCmdDrawIndexed = PFN_vkCmdDrawIndexed( []( VkCommandBuffer, uint32_t a, uint32_t b, uint32_t e, int32_t f, uint32_t g ){ log( "drawIndexed", a, b, e, f, g ); } );
		c.vkCmdBeginRenderPass = PFN_vkCmdBeginRenderPass( []( VkCommandBuffer, const VkRenderPassBeginInfo * i, VkSubpassContents ){ log( "beginRenderPass", h( i->renderPass ), h( i->framebuffer ), i->clearValueCount ); } );
		c.vkCmdEndRenderPass = PFN_vkCmdEndRenderPass( []( VkCommandBuffer ){ log( "endRenderPass" ); } );
		c.vkCmdBindPipeline = PFN_vkCmdBindPipeline( []( VkCommandBuffer, VkPipelineBindPoint p, VkPipeline q ){ log( "bindPipeline", p, h( q ) ); } );
		c.vkCmdResetQueryPool = PFN_vkCmdResetQueryPool( []( VkCommandBuffer, VkQueryPool p, uint32_t f, uint32_t n ){ log( "resetQueries", h( p ), f, n ); } );
		c.vkCmdWriteTimestamp = PFN_vkCmdWriteTimestamp( []( VkCommandBuffer, VkPipelineStageFlagBits s, VkQueryPool p, uint32_t q ){ log( "timestamp", h( p ), q, s ); } );
		c.vkBeginCommandBuffer = PFN_vkBeginCommandBuffer( []( VkCommandBuffer b, const VkCommandBufferBeginInfo * i ){ log( "beginCommandBuffer", h( b ), i->flags ); return VK_SUCCESS; } );
		c.vkEndCommandBuffer = PFN_vkEndCommandBuffer( []( VkCommandBuffer b ){ log( "endCommandBuffer", h( b ) ); return VK_SUCCESS; } );
		c.vkResetCommandBuffer = PFN_vkResetCommandBuffer( []( VkCommandBuffer b, VkCommandBufferResetFlags ){ log( "resetCommandBuffer", h( b ) ); return VK_SUCCESS; } );
		c.vkQueueSubmit = PFN_vkQueueSubmit( []( VkQueue, uint32_t n, const VkSubmitInfo * i, VkFence f )
			{
				for ( uint32_t k = 0u; k < n; ++k )
				{
					log( "submit", i[k].commandBufferCount, i[k].waitSemaphoreCount, i[k].signalSemaphoreCount, h( f ) );
					for ( uint32_t w = 0u; w < i[k].waitSemaphoreCount; ++w )
						log( "submitWait", h( i[k].pWaitSemaphores[w] ), i[k].pWaitDstStageMask[w] );
					for ( uint32_t w = 0u; w < i[k].signalSemaphoreCount; ++w )
						log( "submitSignal", h( i[k].pSignalSemaphores[w] ) );
				}
				return VK_SUCCESS;
			} );
		c.vkWaitForFences = PFN_vkWaitForFences( []( VkDevice, uint32_t, const VkFence * f, VkBool32, uint64_t t ){ log( "waitFence", h( *f ), t ); return VK_SUCCESS; } );
		c.vkResetFences = PFN_vkResetFences( []( VkDevice, uint32_t, const VkFence * f ){ log( "resetFence", h( *f ) ); return VK_SUCCESS; } );
		c.vkDestroyFence = PFN_vkDestroyFence( []( VkDevice, VkFence f, const VkAllocationCallbacks * ){ log( "destroyFence", h( f ) ); } );
		c.vkDestroyImage = PFN_vkDestroyImage( []( VkDevice, VkImage f, const VkAllocationCallbacks * ){ log( "destroyImage", h( f ) ); } );
		c.vkDestroyImageView = PFN_vkDestroyImageView( []( VkDevice, VkImageView f, const VkAllocationCallbacks * ){ log( "destroyImageView", h( f ) ); } );
		c.vkDestroyBuffer = PFN_vkDestroyBuffer( []( VkDevice, VkBuffer f, const VkAllocationCallbacks * ){ log( "destroyBuffer", h( f ) ); } );
		c.vkFreeMemory = PFN_vkFreeMemory( []( VkDevice, VkDeviceMemory f, const VkAllocationCallbacks * ){ log( "freeMemory", h( f ) ); } );
		c.vkDestroySampler = PFN_vkDestroySampler( []( VkDevice, VkSampler f, const VkAllocationCallbacks * ){ log( "destroySampler", h( f ) ); } );
		c.vkDestroyPipeline = PFN_vkDestroyPipeline( []( VkDevice, VkPipeline f, const VkAllocationCallbacks * ){ log( "destroyPipeline", h( f ) ); } );
		c.vkDestroySemaphore = PFN_vkDestroySemaphore( []( VkDevice, VkSemaphore f, const VkAllocationCallbacks * ){ log( "destroySemaphore", h( f ) ); } );
		c.vkDestroyQueryPool = PFN_vkDestroyQueryPool( []( VkDevice, VkQueryPool f, const VkAllocationCallbacks * ){ log( "destroyQueryPool", h( f ) ); } );
		c.vkDestroyRenderPass = PFN_vkDestroyRenderPass( []( VkDevice, VkRenderPass f, const VkAllocationCallbacks * ){ log( "destroyRenderPass", h( f ) ); } );
		c.vkDestroyFramebuffer = PFN_vkDestroyFramebuffer( []( VkDevice, VkFramebuffer f, const VkAllocationCallbacks * ){ log( "destroyFramebuffer", h( f ) ); } );
		c.vkDestroyCommandPool = PFN_vkDestroyCommandPool( []( VkDevice, VkCommandPool f, const VkAllocationCallbacks * ){ log( "destroyCommandPool", h( f ) ); } );
		static uint64_t next = 0x50000;
		c.vkCreateRenderPass = PFN_vkCreateRenderPass( []( VkDevice, const VkRenderPassCreateInfo * i, const VkAllocationCallbacks *, VkRenderPass * r )
			{
				*r = VkRenderPass( ++next );
				log( "createRenderPass", h( *r ), i->attachmentCount, i->pSubpasses[0].colorAttachmentCount, i->pSubpasses[0].pDepthStencilAttachment ? 1 : 0 );
				for ( uint32_t k = 0u; k < i->attachmentCount; ++k )
					log( "attachment", k, i->pAttachments[k].format, i->pAttachments[k].loadOp, i->pAttachments[k].storeOp, i->pAttachments[k].initialLayout, "->", i->pAttachments[k].finalLayout );
				for ( uint32_t k = 0u; k < i->dependencyCount; ++k )
					log( "dependency", k, i->pDependencies[k].srcStageMask, i->pDependencies[k].srcAccessMask, "->", i->pDependencies[k].dstStageMask, i->pDependencies[k].dstAccessMask );
				return VK_SUCCESS;
			} );
		c.vkCreateFramebuffer = PFN_vkCreateFramebuffer( []( VkDevice, const VkFramebufferCreateInfo * i, const VkAllocationCallbacks *, VkFramebuffer * r )
			{
				*r = VkFramebuffer( ++next );
				log( "createFramebuffer", h( *r ), h( i->renderPass ), i->width, i->height, i->layers );
				for ( uint32_t k = 0u; k < i->attachmentCount; ++k )
					log( "framebufferView", h( i->pAttachments[k] ) );
				return VK_SUCCESS;
			} );
		c.vkCreateComputePipelines = PFN_vkCreateComputePipelines( []( VkDevice, VkPipelineCache, uint32_t n, const VkComputePipelineCreateInfo * i, const VkAllocationCallbacks *, VkPipeline * r )
			{
				for ( uint32_t k = 0u; k < n; ++k ) { r[k] = VkPipeline( ++next ); log( "createComputePipeline", h( r[k] ), h( i[k].layout ), h( i[k].stage.module ) ); }
				return VK_SUCCESS;
			} );
		c.vkCreateGraphicsPipelines = PFN_vkCreateGraphicsPipelines( []( VkDevice, VkPipelineCache, uint32_t n, const VkGraphicsPipelineCreateInfo * i, const VkAllocationCallbacks *, VkPipeline * r )
			{
				for ( uint32_t k = 0u; k < n; ++k ) { r[k] = VkPipeline( ++next ); log( "createGraphicsPipeline", h( r[k] ), h( i[k].layout ), h( i[k].renderPass ), i[k].stageCount ); }
				return VK_SUCCESS;
			} );
		c.vkUpdateDescriptorSets = PFN_vkUpdateDescriptorSets( []( VkDevice, uint32_t n, const VkWriteDescriptorSet * w, uint32_t, const VkCopyDescriptorSet * )
			{
				for ( uint32_t k = 0u; k < n; ++k )
					log( "write", h( w[k].dstSet ), w[k].dstBinding, w[k].dstArrayElement, w[k].descriptorCount, w[k].descriptorType
						, w[k].pImageInfo ? h( w[k].pImageInfo->imageView ) : w[k].pBufferInfo ? h( w[k].pBufferInfo->buffer ) : w[k].pTexelBufferView ? h( *w[k].pTexelBufferView ) : 0u
						, w[k].pImageInfo ? uint64_t( w[k].pImageInfo->imageLayout ) : w[k].pBufferInfo ? w[k].pBufferInfo->offset : 0u );
			} );
		c.vkCmdBindDescriptorSets = PFN_vkCmdBindDescriptorSets( []( VkCommandBuffer, VkPipelineBindPoint p, VkPipelineLayout, uint32_t f, uint32_t n, const VkDescriptorSet * s, uint32_t, const uint32_t * )
			{ for ( uint32_t k = 0u; k < n; ++k ) log( "bindSet", p, f + k, h( s[k] ) ); } );
		c.vkCmdBindVertexBuffers = PFN_vkCmdBindVertexBuffers( []( VkCommandBuffer, uint32_t f, uint32_t n, const VkBuffer * b, const VkDeviceSize * o )
			{ for ( uint32_t k = 0u; k < n; ++k ) log( "bindVertexBuffer", f + k, h( b[k] ), o[k] ); } );
		c.vkCmdBindIndexBuffer = PFN_vkCmdBindIndexBuffer( []( VkCommandBuffer, VkBuffer b, VkDeviceSize o, VkIndexType t ){ log( "bindIndexBuffer", h( b ), o, t ); } );
		c.vkCmdDispatchIndirect = PFN_vkCmdDispatchIndirect( []( VkCommandBuffer, VkBuffer b, VkDeviceSize o ){ log( "dispatchIndirect", h( b ), o ); } );
		c.vkCmdDrawIndirect = PFN_vkCmdDrawIndirect( []( VkCommandBuffer, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ){ log( "drawIndirect", h( b ), o, n, s ); } );
		c.vkCmdDrawIndexedIndirect = PFN_vkCmdDrawIndexedIndirect( []( VkCommandBuffer, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ){ log( "drawIndexedIndirect", h( b ), o, n, s ); } );
		c.vkDestroyPipelineLayout = PFN_vkDestroyPipelineLayout( []( VkDevice, VkPipelineLayout f, const VkAllocationCallbacks * ){ log( "destroyPipelineLayout", h( f ) ); } );
		c.vkDestroyDescriptorSetLayout = PFN_vkDestroyDescriptorSetLayout( []( VkDevice, VkDescriptorSetLayout f, const VkAllocationCallbacks * ){ log( "destroyDescriptorSetLayout", h( f ) ); } );
		c.vkDestroyDescriptorPool = PFN_vkDestroyDescriptorPool( []( VkDevice, VkDescriptorPool f, const VkAllocationCallbacks * ){ log( "destroyDescriptorPool", h( f ) ); } );
		c.device = VkDevice( 1 );
		return c;
	}

	inline crg::ImageData image( std::string name, VkFormat format, uint32_t levels = 1u, uint32_t layers = 1u, VkExtent3D extent = { 1024u, 1024u, 1u }, VkImageType type = VK_IMAGE_TYPE_2D )
	{
		return crg::ImageData{ std::move( name ), 0u, type, format, extent, VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT | VK_IMAGE_USAGE_SAMPLED_BIT, levels, layers };
	}

	// A pass whose only effect is to log its name when it records.
	class Pass : public crg::RunnablePass
	{
	public:
		Pass( crg::FramePass const & f, crg::GraphContext & c, crg::RunnableGraph & g
			, std::function< bool() > enabled = []{ return true; }
			, VkPipelineStageFlags stage = VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT
			, crg::ru::Config config = {}
			, std::function< uint32_t() > index = []{ return 0u; }
			, std::function< void( crg::RecordContext & ) > onRecord = []( crg::RecordContext & ){} )
			: crg::RunnablePass{ f, c, g
				, Callbacks{ InitialiseCallback( [n = f.getName()]( uint32_t i ){ log( "init", n, i ); } )
					, GetPipelineStateCallback( [stage](){ return crg::getPipelineState( stage ); } )
					, RecordCallback( [n = f.getName(), onRecord]( crg::RecordContext & r, VkCommandBuffer, uint32_t i ){ log( "pass", n, i ); onRecord( r ); } )
					, GetPassIndexCallback( [index](){ return index(); } )
					, IsEnabledCallback( [enabled](){ return enabled(); } ) }
				, std::move( config ) }
		{
		}
	};
}

#define EXPECT( x ) mock::expect( bool( x ), #x )
#define DEMO_END if ( mock::failures ) { mock::dump(); } return mock::failures ? 1 : 0;
