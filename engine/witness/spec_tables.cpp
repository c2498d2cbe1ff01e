// Reference models: what a layout, a stage or a format means; what a view covers.
#include "spec.hpp"

namespace spec
{
	VkAccessFlags layoutAccess( VkImageLayout layout )
	{
		return layout == VK_IMAGE_LAYOUT_PRESENT_SRC_KHR || layout == VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR ? VK_ACCESS_MEMORY_READ_BIT
			: layout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL ? VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT
			: layout == VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
			: layout == VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT
			: layout == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL || layout == VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL
				? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
			: layout == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ? VK_ACCESS_SHADER_READ_BIT
			: layout == VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ? VK_ACCESS_TRANSFER_READ_BIT
			: layout == VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ? VK_ACCESS_TRANSFER_WRITE_BIT
			: layout == VK_IMAGE_LAYOUT_SHADING_RATE_OPTIMAL_NV ? VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV
			: layout == VK_IMAGE_LAYOUT_FRAGMENT_DENSITY_MAP_OPTIMAL_EXT ? VK_ACCESS_FRAGMENT_DENSITY_MAP_READ_BIT_EXT
			: 0u;
	}
	VkPipelineStageFlags layoutStage( VkImageLayout layout )
	{
		switch ( layout )
		{
		case VK_IMAGE_LAYOUT_UNDEFINED:
			return VK_PIPELINE_STAGE_HOST_BIT;
		case VK_IMAGE_LAYOUT_GENERAL:
		case VK_IMAGE_LAYOUT_PRESENT_SRC_KHR:
		case VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR:
			return VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL:
		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
			return VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL:
			return VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL:
		case VK_IMAGE_LAYOUT_FRAGMENT_DENSITY_MAP_OPTIMAL_EXT:
			return VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
		case VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL:
		case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL:
			return VK_PIPELINE_STAGE_TRANSFER_BIT;
		case VK_IMAGE_LAYOUT_SHADING_RATE_OPTIMAL_NV:
			return VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV;
		default:
			return 0u;
		}
	}
	LayoutState layoutState( VkImageLayout layout )
	{
		LayoutState result{};
		result.layout = layout;
		result.state.access = layoutAccess( layout );
		result.state.pipelineStage = layoutStage( layout );
		return result;
	}
	inline VkAccessFlags when( VkPipelineStageFlags flags, VkPipelineStageFlags stage, VkAccessFlags access )
	{
		return ( flags & stage ) != 0u ? access : 0u;
	}
	PipelineState stageState( VkPipelineStageFlags flags )
	{
		PipelineState result{};
		result.pipelineStage = flags;
		result.access = when( flags, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, VK_ACCESS_MEMORY_READ_BIT )
			| when( flags, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT, VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT )
			| when( flags, VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT )
			| when( flags, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_ACCESS_SHADER_READ_BIT )
			| when( flags, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_ACCESS_SHADER_READ_BIT )
			| when( flags, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT )
			| when( flags, VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV, VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV );
		return result;
	}
	// formats
	inline bool both( VkFormat f )
	{
		return f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT;
	}
	inline bool onlyDepth( VkFormat f )
	{
		return f == VK_FORMAT_D16_UNORM || f == VK_FORMAT_X8_D24_UNORM_PACK32 || f == VK_FORMAT_D32_SFLOAT;
	}
	bool depthFormat( VkFormat fmt )
	{
		return both( fmt ) || onlyDepth( fmt );
	}
	bool stencilFormat( VkFormat fmt )
	{
		return both( fmt ) || fmt == VK_FORMAT_S8_UINT;
	}
	bool depthStencilFormat( VkFormat fmt )
	{
		return both( fmt );
	}
	bool colourFormat( VkFormat fmt )
	{
		return !( both( fmt ) || onlyDepth( fmt ) || fmt == VK_FORMAT_S8_UINT );
	}
	VkImageAspectFlags aspects( VkFormat fmt )
	{
		if ( colourFormat( fmt ) )
			return VK_IMAGE_ASPECT_COLOR_BIT;
		return ( depthFormat( fmt ) ? VK_IMAGE_ASPECT_DEPTH_BIT : 0u ) | ( stencilFormat( fmt ) ? VK_IMAGE_ASPECT_STENCIL_BIT : 0u );
	}
	// images and views
	VkExtent3D imageExtent( ImageId const & image )
	{
		return image.data->info.extent;
	}
	VkExtent3D viewExtent( ImageViewId const & view )
	{
		return view.data->image.data->info.extent;
	}
	VkExtent3D mipExtent( ImageViewId const & view )
	{
		auto level = view.data->info.subresourceRange.baseMipLevel;
		auto full = view.data->image.data->info.extent;
		VkExtent3D result{};
		result.width = std::max( full.width >> level, 1u );
		result.height = std::max( full.height >> level, 1u );
		result.depth = std::max( full.depth >> level, 1u );
		return result;
	}
	VkFormat imageFormat( ImageId const & image )
	{
		return image.data->info.format;
	}
	VkFormat viewFormat( ImageViewId const & view )
	{
		return view.data->info.format;
	}
	VkImageType imageType( ImageId const & image )
	{
		return image.data->info.imageType;
	}
	VkImageType viewImageType( ImageViewId const & view )
	{
		return view.data->image.data->info.imageType;
	}
	uint32_t imageLevels( ImageId const & image )
	{
		return image.data->info.mipLevels;
	}
	uint32_t viewLevels( ImageViewId const & view )
	{
		return view.data->info.subresourceRange.levelCount;
	}
	uint32_t imageLayers( ImageId const & image )
	{
		return image.data->info.arrayLayers;
	}
	uint32_t viewLayers( ImageViewId const & view )
	{
		return view.data->info.subresourceRange.layerCount;
	}
	// what a description asks of Vulkan
	void imageDataCreate( ImageData & self, std::string name, VkImageCreateFlags flags, VkImageType imageType, VkFormat format, VkExtent3D extent
		, VkImageUsageFlags usage, uint32_t mipLevels, uint32_t arrayLayers, VkSampleCountFlagBits samples, VkImageTiling tiling )
	{
		self.name = name;
		self.info.sType = VK_STRUCTURE_TYPE_IMAGE_CREATE_INFO;
		self.info.pNext = nullptr;
		self.info.flags = flags;
		self.info.imageType = imageType;
		self.info.format = format;
		self.info.extent = extent;
		self.info.mipLevels = mipLevels;
		self.info.arrayLayers = arrayLayers;
		self.info.samples = samples;
		self.info.tiling = tiling;
		self.info.usage = usage;
		self.info.sharingMode = VK_SHARING_MODE_EXCLUSIVE;
		self.info.queueFamilyIndexCount = 0u;
		self.info.pQueueFamilyIndices = nullptr;
		self.info.initialLayout = VK_IMAGE_LAYOUT_UNDEFINED;
	}
	void viewDataCreate( ImageViewData & self, std::string name, ImageId image, VkImageViewCreateFlags flags, VkImageViewType viewType, VkFormat format, VkImageSubresourceRange range )
	{
		self.name = name;
		self.image = image;
		self.source.clear();
		self.info.sType = VK_STRUCTURE_TYPE_IMAGE_VIEW_CREATE_INFO;
		self.info.pNext = nullptr;
		self.info.flags = flags;
		self.info.image = VkImage{};
		self.info.viewType = viewType;
		self.info.format = format;
		self.info.components.r = VK_COMPONENT_SWIZZLE_R;
		self.info.components.g = VK_COMPONENT_SWIZZLE_G;
		self.info.components.b = VK_COMPONENT_SWIZZLE_B;
		self.info.components.a = VK_COMPONENT_SWIZZLE_A;
		self.info.subresourceRange = range;
	}
	// in a 3D view of one mip level, or of all of them, the depth slices of its first level stand for layers
	VkImageSubresourceRange virtualRange( ImageId const & image, VkImageViewType viewType, VkImageSubresourceRange const & range )
	{
		auto r = range;
		bool slices = viewType == VK_IMAGE_VIEW_TYPE_3D && ( range.levelCount == image.data->info.mipLevels || range.levelCount == 1u );
		if ( slices )
		{
			r.layerCount = std::max( 1u, image.data->info.extent.depth >> range.baseMipLevel );
			r.baseArrayLayer = 0u;
		}
		return r;
	}
	inline bool sameLayers( VkImageSubresourceRange const & a, VkImageSubresourceRange const & b )
	{
		return a.baseArrayLayer == b.baseArrayLayer && a.layerCount == b.layerCount
			&& a.baseMipLevel == b.baseMipLevel && a.levelCount == b.levelCount
			&& ( a.aspectMask & b.aspectMask ) != 0u;
	}
	bool viewsMatch( ImageViewData const & lhs, ImageViewData const & rhs )
	{
		if ( lhs.image.id != rhs.image.id || lhs.info.format != rhs.info.format || lhs.info.flags != rhs.info.flags )
			return false;
		return lhs.info.viewType == rhs.info.viewType
			? sameLayers( lhs.info.subresourceRange, rhs.info.subresourceRange )
			: sameLayers( virtualRange( lhs.image, lhs.info.viewType, lhs.info.subresourceRange ), virtualRange( lhs.image, rhs.info.viewType, rhs.info.subresourceRange ) );
	}
	ImageViewId resolved( ImageViewId const & view, uint32_t passIndex )
	{
		if ( view.data->source.empty() )
			return view;
		return view.data->source[passIndex];
	}
}
