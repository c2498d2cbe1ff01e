// Reference models: layout tables and per-subresource state (C02, C04).
#include "spec.hpp"

namespace spec
{
	VkAccessFlags accessOf( VkImageLayout l )
	{
		if ( l == VK_IMAGE_LAYOUT_PRESENT_SRC_KHR || l == VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR )
			return VK_ACCESS_MEMORY_READ_BIT;
		if ( l == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL )
			return VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
		if ( l == VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL )
			return VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
		if ( l == VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL )
			return VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
		if ( l == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL )
			return VK_ACCESS_SHADER_READ_BIT;
		if ( l == VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL )
			return VK_ACCESS_TRANSFER_READ_BIT;
		if ( l == VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL )
			return VK_ACCESS_TRANSFER_WRITE_BIT;
		if ( l == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL )
			return VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
		if ( l == VK_IMAGE_LAYOUT_SHADING_RATE_OPTIMAL_NV )
			return VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV;
		if ( l == VK_IMAGE_LAYOUT_FRAGMENT_DENSITY_MAP_OPTIMAL_EXT )
			return VK_ACCESS_FRAGMENT_DENSITY_MAP_READ_BIT_EXT;
		return 0u;
	}
	VkPipelineStageFlags stageOf( VkImageLayout l )
	{
		if ( l == VK_IMAGE_LAYOUT_UNDEFINED )
			return VK_PIPELINE_STAGE_HOST_BIT;
		if ( l == VK_IMAGE_LAYOUT_GENERAL || l == VK_IMAGE_LAYOUT_PRESENT_SRC_KHR || l == VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR )
			return VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
		if ( l == VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL
			|| l == VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL )
			return VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
		if ( l == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL )
			return VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
		if ( l == VK_IMAGE_LAYOUT_FRAGMENT_DENSITY_MAP_OPTIMAL_EXT || l == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL )
			return VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
		if ( l == VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL || l == VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL )
			return VK_PIPELINE_STAGE_TRANSFER_BIT;
		if ( l == VK_IMAGE_LAYOUT_SHADING_RATE_OPTIMAL_NV )
			return VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV;
		return 0u;
	}
	LayoutState layoutState( VkImageLayout l )
	{
		return { l, accessOf( l ), stageOf( l ) };
	}
	PipelineState pipelineState( VkPipelineStageFlags f )
	{
		VkAccessFlags a = 0u;
		if ( f & VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT ) a |= VK_ACCESS_MEMORY_READ_BIT;
		if ( f & VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ) a |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT;
		if ( f & VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) a |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
		if ( f & VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) a |= VK_ACCESS_SHADER_READ_BIT;
		if ( f & VK_PIPELINE_STAGE_TRANSFER_BIT ) a |= VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
		if ( f & VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV ) a |= VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV;
		if ( f & VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) a |= VK_ACCESS_SHADER_READ_BIT;
		return { a, f };
	}
	bool depthFormat( VkFormat f )
	{
		return f == VK_FORMAT_D16_UNORM || f == VK_FORMAT_X8_D24_UNORM_PACK32 || f == VK_FORMAT_D32_SFLOAT
			|| f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT;
	}
	bool stencilFormat( VkFormat f )
	{
		return f == VK_FORMAT_S8_UINT || f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT;
	}
	bool colourFormat( VkFormat f )
	{
		return !depthFormat( f ) && !stencilFormat( f );
	}
	bool depthStencilFormat( VkFormat f )
	{
		return depthFormat( f ) && stencilFormat( f );
	}
	VkImageAspectFlags aspectOf( VkFormat f )
	{
		VkImageAspectFlags r = 0u;
		if ( depthFormat( f ) ) r |= VK_IMAGE_ASPECT_DEPTH_BIT;
		if ( stencilFormat( f ) ) r |= VK_IMAGE_ASPECT_STENCIL_BIT;
		return r ? r : VK_IMAGE_ASPECT_COLOR_BIT;
	}

	// ---- per-subresource state -----------------------------------------------------------
	void addRange( LayerLayoutStates & ranges, VkImageSubresourceRange const & range, LayoutState const & state )
	{
		for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
		{
			auto & levels = ranges.try_emplace( range.baseArrayLayer + layer ).first->second;
			for ( uint32_t level = 0u; level < range.levelCount; ++level )
				levels.insert_or_assign( range.baseMipLevel + level, state );
		}
	}
	LayoutState readRange( LayerLayoutStates const & ranges, VkImageSubresourceRange const & range )
	{
		std::map< VkImageLayout, LayoutState > byLayout;
		for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
		{
			auto levels = ranges.find( range.baseArrayLayer + layer );
			if ( levels == ranges.end() )
				continue;
			for ( uint32_t level = 0u; level < range.levelCount; ++level )
			{
				auto state = levels->second.find( range.baseMipLevel + level );
				if ( state == levels->second.end() )
					continue;
				auto ins = byLayout.emplace( state->second.layout, state->second );
				if ( !ins.second )
					ins.first->second.state.access |= state->second.state.access;
			}
		}
		if ( byLayout.empty() )
			return { VK_IMAGE_LAYOUT_UNDEFINED, 0u, VK_PIPELINE_STAGE_HOST_BIT };
		return byLayout.begin()->second;
	}
	VkImageSubresourceRange virtualRange( ImageId const & image, VkImageViewType viewType, VkImageSubresourceRange const & range )
	{
		auto r = range;
		if ( viewType == VK_IMAGE_VIEW_TYPE_3D && ( r.levelCount == 1u || r.levelCount == image.data->info.mipLevels ) )
		{
			r.baseArrayLayer = 0u;
			r.layerCount = std::max( 1u, image.data->info.extent.depth >> r.baseMipLevel );
		}
		return r;
	}
	void setImageState( LayerLayoutStatesHandler & self, ImageId const & image, VkImageViewType viewType, VkImageSubresourceRange const & range, LayoutState const & state )
	{
		addSubresourceRangeLayout( self.images[image.id], getVirtualRange( image, viewType, range ), state );
	}
	LayoutState getImageState( LayerLayoutStatesHandler const & self, ImageId const & image, VkImageViewType viewType, VkImageSubresourceRange const & range )
	{
		auto it = self.images.find( image.id );
		if ( it == self.images.end() )
			return { VK_IMAGE_LAYOUT_UNDEFINED, { 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT } };
		return getSubresourceRangeLayout( it->second, getVirtualRange( image, viewType, range ) );
	}
	void setViewState( LayerLayoutStatesHandler & self, ImageViewId const & view, LayoutState const & state )
	{
		assert( view.data->source.empty() );
		setImageState( self, view.data->image, view.data->info.viewType, view.data->info.subresourceRange, state );
	}
	LayoutState getViewState( LayerLayoutStatesHandler const & self, ImageViewId const & view )
	{
		assert( view.data->source.empty() );
		return getImageState( self, view.data->image, view.data->info.viewType, view.data->info.subresourceRange );
	}
	void rcSetView( RecordContext & self, ImageViewId const & view, LayoutState const & state )
	{
		setViewState( self.m_images, view, state );
	}
	LayoutState rcGetView( RecordContext const & self, ImageViewId const & view )
	{
		return getViewState( self.m_images, view );
	}
	LayoutState rcNextView( RecordContext const & self, ImageViewId const & view )
	{
		return getViewState( self.m_nextImages, view );
	}
	void rcSetImage( RecordContext & self, ImageId const & image, VkImageViewType viewType, VkImageSubresourceRange const & range, LayoutState const & state )
	{
		setImageState( self.m_images, image, viewType, range, state );
	}
	LayoutState rcGetImage( RecordContext const & self, ImageId const & image, VkImageViewType viewType, VkImageSubresourceRange const & range )
	{
		return getImageState( self.m_images, image, viewType, range );
	}
	LayoutState rcNextImage( RecordContext const & self, ImageId const & image, VkImageViewType viewType, VkImageSubresourceRange const & range )
	{
		return getImageState( self.m_nextImages, image, viewType, range );
	}
	void mergeStates( LayerLayoutStatesHandler & self, LayerLayoutStatesHandler const & data )
	{
		for ( auto & state : data.images )
			self.images.insert( state );
	}
}
