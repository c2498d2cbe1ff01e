// Reference models: when two descriptions are the same.
#include "spec.hpp"
#include <RenderGraph/AttachmentTransition.hpp>
#include <cstring>

namespace spec
{
	inline bool same( VkImageSubresourceRange const & a, VkImageSubresourceRange const & b )
	{
		return a.aspectMask == b.aspectMask
			&& a.baseMipLevel == b.baseMipLevel && a.levelCount == b.levelCount
			&& a.baseArrayLayer == b.baseArrayLayer && a.layerCount == b.layerCount;
	}
	inline bool same( VkComponentMapping const & a, VkComponentMapping const & b )
	{
		return a.r == b.r && a.g == b.g && a.b == b.b && a.a == b.a;
	}
	inline bool same( VkImageViewCreateInfo const & a, VkImageViewCreateInfo const & b )
	{
		return same( a.subresourceRange, b.subresourceRange )
			&& a.format == b.format && a.viewType == b.viewType && a.flags == b.flags
			&& same( a.components, b.components );
	}
	inline bool same( VkImageCreateInfo const & a, VkImageCreateInfo const & b )
	{
		return a.flags == b.flags && a.imageType == b.imageType && a.format == b.format
			&& a.extent.width == b.extent.width && a.extent.height == b.extent.height && a.extent.depth == b.extent.depth
			&& a.mipLevels == b.mipLevels && a.arrayLayers == b.arrayLayers
			&& a.samples == b.samples && a.tiling == b.tiling && a.usage == b.usage;
	}
	bool eqRange( VkImageSubresourceRange const & lhs, VkImageSubresourceRange const & rhs )
	{
		return same( lhs, rhs );
	}
	bool eqViewInfo( VkImageViewCreateInfo const & lhs, VkImageViewCreateInfo const & rhs )
	{
		return same( lhs, rhs );
	}
	bool eqView( ImageViewData const & lhs, ImageViewData const & rhs )
	{
		return lhs.image.id == rhs.image.id
			&& same( lhs.info, rhs.info )
			&& lhs.source == rhs.source;
	}
	bool eqExtent( VkExtent3D const & lhs, VkExtent3D const & rhs )
	{
		return lhs.width == rhs.width && lhs.height == rhs.height && lhs.depth == rhs.depth;
	}
	bool eqImageInfo( VkImageCreateInfo const & lhs, VkImageCreateInfo const & rhs )
	{
		return same( lhs, rhs );
	}
	bool eqImage( ImageData const & lhs, ImageData const & rhs )
	{
		return lhs.name == rhs.name && same( lhs.info, rhs.info );
	}
	bool eqSampler( SamplerDesc const & lhs, SamplerDesc const & rhs )
	{
		return lhs.magFilter == rhs.magFilter && lhs.minFilter == rhs.minFilter && lhs.mipmapMode == rhs.mipmapMode
			&& lhs.addressModeU == rhs.addressModeU && lhs.addressModeV == rhs.addressModeV && lhs.addressModeW == rhs.addressModeW
			&& lhs.mipLodBias == rhs.mipLodBias && lhs.minLod == rhs.minLod && lhs.maxLod == rhs.maxLod;
	}
	bool eqBuffer( Buffer const & lhs, Buffer const & rhs )
	{
		return lhs.m_buffers == rhs.m_buffers;
	}
	bool eqBufferAttach( BufferAttachment const & lhs, BufferAttachment const & rhs )
	{
		return eqBuffer( lhs.buffer, rhs.buffer )
			&& lhs.flags == rhs.flags
			&& lhs.view == rhs.view
			&& lhs.range.size == rhs.range.size
			&& lhs.range.offset == rhs.range.offset;
	}
	bool eqBlend( VkPipelineColorBlendAttachmentState const & a, VkPipelineColorBlendAttachmentState const & b )
	{
		return a.blendEnable == b.blendEnable
			&& a.srcColorBlendFactor == b.srcColorBlendFactor && a.dstColorBlendFactor == b.dstColorBlendFactor && a.colorBlendOp == b.colorBlendOp
			&& a.srcAlphaBlendFactor == b.srcAlphaBlendFactor && a.dstAlphaBlendFactor == b.dstAlphaBlendFactor && a.alphaBlendOp == b.alphaBlendOp
			&& a.colorWriteMask == b.colorWriteMask;
	}
	bool eqClear( VkClearValue const & lhs, VkClearValue const & rhs )
	{
		return std::memcmp( &lhs, &rhs, sizeof( VkClearValue ) ) == 0;
	}
	bool eqImageAttach( ImageAttachment const & lhs, ImageAttachment const & rhs )
	{
		return lhs.flags == rhs.flags
			&& lhs.views == rhs.views
			&& lhs.loadOp == rhs.loadOp && lhs.storeOp == rhs.storeOp
			&& lhs.stencilLoadOp == rhs.stencilLoadOp && lhs.stencilStoreOp == rhs.stencilStoreOp
			&& eqSampler( lhs.samplerDesc, rhs.samplerDesc )
			&& eqClear( lhs.clearValue, rhs.clearValue )
			&& eqBlend( lhs.blendState, rhs.blendState );
	}
	bool eqAttach( Attachment const & lhs, Attachment const & rhs )
	{
		return lhs.pass == rhs.pass
			&& lhs.flags == rhs.flags
			&& eqImageAttach( lhs.imageAttach, rhs.imageAttach )
			&& eqBufferAttach( lhs.bufferAttach, rhs.bufferAttach );
	}
	bool eqViewTransition( ViewTransition const & lhs, ViewTransition const & rhs )
	{
		return crg::match( *lhs.data.data, *rhs.data.data )
			&& eqAttach( lhs.outputAttach, rhs.outputAttach )
			&& eqAttach( lhs.inputAttach, rhs.inputAttach );
	}
	bool eqBufferTransition( BufferTransition const & lhs, BufferTransition const & rhs )
	{
		return eqBuffer( lhs.data, rhs.data )
			&& eqAttach( lhs.outputAttach, rhs.outputAttach )
			&& eqAttach( lhs.inputAttach, rhs.inputAttach );
	}
	bool eqId( ImageViewId const & lhs, ImageViewId const & rhs )
	{
		return lhs.id == rhs.id;
	}
	bool neId( ImageViewId const & lhs, ImageViewId const & rhs )
	{
		return !( lhs.id == rhs.id );
	}
	bool ltId( ImageViewId const & lhs, ImageViewId const & rhs )
	{
		return lhs.id < rhs.id;
	}
	bool gtId( ImageViewId const & lhs, ImageViewId const & rhs )
	{
		return rhs.id < lhs.id;
	}
	bool eqImageId( ImageId const & lhs, ImageId const & rhs )
	{
		return lhs.id == rhs.id;
	}
	bool neImageId( ImageId const & lhs, ImageId const & rhs )
	{
		return !( lhs.id == rhs.id );
	}
	bool ltImageId( ImageId const & lhs, ImageId const & rhs )
	{
		return lhs.id < rhs.id;
	}
	bool gtImageId( ImageId const & lhs, ImageId const & rhs )
	{
		return rhs.id < lhs.id;
	}
	// identical transitions are kept once, the first occurrence of each, in order
	template< typename T >
	inline std::vector< T > once( std::vector< T > all )
	{
		std::vector< T > kept;
		for ( auto & one : all )
		{
			bool known = std::any_of( kept.begin(), kept.end(), [&one]( T const & k ){ return k == one; } );
			if ( !known )
				kept.push_back( one );
		}
		return kept;
	}
	AttachmentTransitions merged( AttachmentTransitions transitions )
	{
		AttachmentTransitions result{};
		result.viewTransitions = once( std::move( transitions.viewTransitions ) );
		result.bufferTransitions = once( std::move( transitions.bufferTransitions ) );
		return result;
	}
	// forces the instantiations
	bool use( ImageId const & a, ImageId const & b, ImageViewId const & c, ImageViewId const & d )
	{
		return a == b || a != b || a < b || a > b || c == d || c != d || c < d || c > d;
	}
}
