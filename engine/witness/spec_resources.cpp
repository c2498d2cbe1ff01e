// Reference models: images, views, samplers and full-screen triangles, created once and destroyed by their creator.
#include "spec.hpp"

namespace crg::reshdl
{
	size_t makeHash( SamplerDesc const & desc );
	size_t makeHash( bool coords, Texcoord const & config );
}

namespace spec
{
	// identifiers
	ImageId newImageId( ResourceHandler & self, ImageData const & image )
	{
		std::unique_lock< std::mutex > lock( self.m_imagesMutex );
		auto data = std::make_unique< ImageData >( image );
		ImageId id{ uint32_t( self.m_imageIds.size() + 1u ), data.get() };
		self.m_imageIds.try_emplace( id, std::move( data ) );
		return id;
	}
	ImageViewId newViewId( ResourceHandler & self, ImageViewData const & view )
	{
		std::unique_lock< std::mutex > lock( self.m_viewsMutex );
		for ( auto & known : self.m_imageViewIds )
		{
			if ( *known.second == view )
				return known.first;
		}
		auto data = std::make_unique< ImageViewData >( view );
		ImageViewId id{ uint32_t( self.m_imageViewIds.size() + 1u ), data.get() };
		self.m_imageViewIds.try_emplace( id, std::move( data ) );
		return id;
	}
	// device objects
	VkDeviceMemory imageMemory( GraphContext & context, std::string const & name, VkImage image )
	{
		VkDeviceMemory bound{};
		try
		{
			VkMemoryRequirements needs{};
			context.vkGetImageMemoryRequirements( context.device, image, &needs );
			VkMemoryAllocateInfo info{};
			info.sType = VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO;
			info.allocationSize = needs.size;
			info.memoryTypeIndex = context.deduceMemoryType( needs.memoryTypeBits, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
			VkDeviceMemory memory{};
			auto res = context.vkAllocateMemory( context.device, &info, context.allocator, &memory );
			checkVkResult( res, "allocation" );
			bound = memory;
			crgRegisterObjectName( context, name, memory );
			res = context.vkBindImageMemory( context.device, image, memory, 0u );
			checkVkResult( res, "binding" );
		}
		catch ( ... )
		{
			if ( context.vkFreeMemory && bound )
				context.vkFreeMemory( context.device, bound, context.allocator );
			if ( context.vkDestroyImage )
				context.vkDestroyImage( context.device, image, context.allocator );
			throw;
		}
		return bound;
	}
	std::pair< VkImage, bool > makeImage( ResourceHandler & self, GraphContext & context, ImageId id )
	{
		std::pair< VkImage, bool > result{};
		if ( context.vkCreateImage )
		{
			std::unique_lock< std::mutex > lock( self.m_imagesMutex );
			auto it = self.m_images.find( id );
			if ( it != self.m_images.end() )
				return { it->second.first, false };
			VkImage image{};
			VkImageCreateInfo info = id.data->info;
			auto res = context.vkCreateImage( context.device, &info, context.allocator, &image );
			checkVkResult( res, "creation" );
			crgRegisterObjectName( context, id.data->name, image );
			VkDeviceMemory memory{};
			if ( context.device )
				memory = imageMemory( context, id.data->name, image );
			self.m_images.try_emplace( id, image, memory );
			result.first = image;
			result.second = context.device != nullptr;
		}
		return result;
	}
	std::pair< VkImageView, bool > makeView( ResourceHandler & self, GraphContext & context, ImageViewId id )
	{
		std::pair< VkImageView, bool > result{};
		if ( context.vkCreateImageView )
		{
			std::unique_lock< std::mutex > lock( self.m_viewsMutex );
			auto it = self.m_imageViews.find( id );
			if ( it != self.m_imageViews.end() )
				return { it->second, false };
			VkImageView view{};
			VkImageViewCreateInfo info = id.data->info;
			info.image = self.createImage( context, id.data->image ).first;
			auto res = context.vkCreateImageView( context.device, &info, context.allocator, &view );
			checkVkResult( res, "creation" );
			self.m_imageViews.try_emplace( id, view );
			crgRegisterObjectName( context, id.data->name, view );
			result.first = view;
			result.second = true;
		}
		return result;
	}
	void unmakeImage( ResourceHandler & self, GraphContext & context, ImageId id )
	{
		std::unique_lock< std::mutex > lock( self.m_imagesMutex );
		auto it = self.m_images.find( id );
		if ( it == self.m_images.end() )
			return;
		if ( context.vkFreeMemory && it->second.second )
			context.vkFreeMemory( context.device, it->second.second, context.allocator );
		if ( context.vkDestroyImage && it->second.first )
			context.vkDestroyImage( context.device, it->second.first, context.allocator );
		self.m_images.erase( it );
	}
	void unmakeView( ResourceHandler & self, GraphContext & context, ImageViewId id )
	{
		std::unique_lock< std::mutex > lock( self.m_viewsMutex );
		auto it = self.m_imageViews.find( id );
		if ( it == self.m_imageViews.end() )
			return;
		if ( context.vkDestroyImageView && it->second )
			context.vkDestroyImageView( context.device, it->second, context.allocator );
		self.m_imageViews.erase( it );
	}
	// the cache of one context
	VkImage cacheImage( ContextResourcesCache & self, ImageId const & id )
	{
		auto made = self.m_handler.createImage( self.m_context, id );
		if ( made.second )
			self.m_images[id] = made.first;
		return made.first;
	}
	VkImageView cacheView( ContextResourcesCache & self, ImageViewId const & id )
	{
		self.createImage( id.data->image );
		auto made = self.m_handler.createImageView( self.m_context, id );
		if ( made.second )
			self.m_imageViews[id] = made.first;
		return made.first;
	}
	bool uncacheImage( ContextResourcesCache & self, ImageId const & id )
	{
		auto it = self.m_images.find( id );
		if ( it == self.m_images.end() )
			return false;
		self.m_handler.destroyImage( self.m_context, id );
		self.m_images.erase( it );
		return true;
	}
	bool uncacheView( ContextResourcesCache & self, ImageViewId const & id )
	{
		auto it = self.m_imageViews.find( id );
		if ( it == self.m_imageViews.end() )
			return false;
		self.m_handler.destroyImageView( self.m_context, id );
		self.m_imageViews.erase( it );
		return true;
	}
	void endCache( ContextResourcesCache & self )
	{
		for ( auto & view : self.m_imageViews )
			self.m_handler.destroyImageView( self.m_context, view.first );
		for ( auto & image : self.m_images )
			self.m_handler.destroyImage( self.m_context, image.first );
		for ( auto & sampler : self.m_samplers )
			self.m_handler.destroySampler( self.m_context, sampler.second );
		for ( auto & buffer : self.m_vertexBuffers )
			self.m_handler.destroyVertexBuffer( self.m_context, buffer.second );
	}
	// the caches of all contexts
	ContextResourcesCache & cacheOf( ResourcesCache & self, GraphContext & context )
	{
		auto it = self.m_caches.find( &context );
		if ( it != self.m_caches.end() )
			return it->second;
		return self.m_caches.try_emplace( &context, self.m_handler, context ).first->second;
	}
	VkImage imageIn( ResourcesCache & self, GraphContext & context, ImageId const & id ) { return self.getContextCache( context ).createImage( id ); }
	VkImageView viewIn( ResourcesCache & self, GraphContext & context, ImageViewId const & id ) { return self.getContextCache( context ).createImageView( id ); }
	bool imageOutOf( ResourcesCache & self, GraphContext & context, ImageId const & id ) { return self.getContextCache( context ).destroyImage( id ); }
	bool viewOutOf( ResourcesCache & self, GraphContext & context, ImageViewId const & id ) { return self.getContextCache( context ).destroyImageView( id ); }
	VkSampler samplerIn( ResourcesCache & self, GraphContext & context, SamplerDesc const & desc ) { return self.getContextCache( context ).createSampler( desc ); }
	VertexBuffer const & triangleIn( ResourcesCache & self, GraphContext & context, bool coords, Texcoord const & config ) { return self.getContextCache( context ).createQuadTriVertexBuffer( coords, config ); }
	bool imageOut( ResourcesCache & self, ImageId const & id )
	{
		for ( auto & cache : self.m_caches )
		{
			if ( cache.second.destroyImage( id ) )
				return true;
		}
		return false;
	}
	bool viewOut( ResourcesCache & self, ImageViewId const & id )
	{
		for ( auto & cache : self.m_caches )
		{
			if ( cache.second.destroyImageView( id ) )
				return true;
		}
		return false;
	}
	// samplers
	VkSampler makeSampler( ResourceHandler & self, GraphContext & context, std::string const & suffix, SamplerDesc const & desc )
	{
		VkSampler sampler{};
		if ( context.vkCreateSampler )
		{
			std::unique_lock< std::mutex > lock( self.m_samplersMutex );
			VkSamplerCreateInfo info{};
			info.sType = VK_STRUCTURE_TYPE_SAMPLER_CREATE_INFO;
			info.magFilter = desc.magFilter;
			info.minFilter = desc.minFilter;
			info.mipmapMode = desc.mipmapMode;
			info.addressModeU = desc.addressModeU;
			info.addressModeV = desc.addressModeV;
			info.addressModeW = desc.addressModeW;
			info.mipLodBias = desc.mipLodBias;
			info.minLod = desc.minLod;
			info.maxLod = desc.maxLod;
			info.compareOp = VK_COMPARE_OP_ALWAYS;
			info.borderColor = VK_BORDER_COLOR_FLOAT_TRANSPARENT_BLACK;
			auto res = context.vkCreateSampler( context.device, &info, context.allocator, &sampler );
			checkVkResult( res, "creation" );
			auto & kept = self.m_samplers.try_emplace( sampler, Sampler{ sampler, {} } ).first->second;
			kept.name = "Sampler_" + suffix;
			crgRegisterObject( context, kept.name, sampler );
		}
		return sampler;
	}
	void unmakeSampler( ResourceHandler & self, GraphContext & context, VkSampler sampler )
	{
		std::unique_lock< std::mutex > lock( self.m_samplersMutex );
		auto it = self.m_samplers.find( sampler );
		if ( it == self.m_samplers.end() )
			return;
		if ( context.vkDestroySampler && it->first )
		{
			crgUnregisterObject( context, it->first );
			context.vkDestroySampler( context.device, it->first, context.allocator );
		}
		self.m_samplers.erase( it );
	}
	VkSampler cacheSampler( ContextResourcesCache & self, SamplerDesc const & desc )
	{
		size_t key = crg::reshdl::makeHash( desc );
		auto it = self.m_samplers.find( key );
		if ( it == self.m_samplers.end() )
			it = self.m_samplers.try_emplace( key, self.m_handler.createSampler( self.m_context, std::to_string( key ), desc ) ).first;
		return it->second;
	}
	// full-screen triangles
	struct Point { std::array< float, 2u > position; std::array< float, 2u > texture; };
	void dropTriangle( GraphContext & context, VertexBuffer & triangle )
	{
		if ( context.vkFreeMemory && triangle.memory )
		{
			crgUnregisterObject( context, triangle.memory );
			context.vkFreeMemory( context.device, triangle.memory, context.allocator );
		}
		if ( context.vkDestroyBuffer && triangle.buffer.buffer() )
		{
			crgUnregisterObject( context, triangle.buffer.buffer() );
			context.vkDestroyBuffer( context.device, triangle.buffer.buffer(), context.allocator );
		}
	}
	VertexBuffer const * makeTriangle( ResourceHandler & self, GraphContext & context, std::string const & suffix, bool coords, Texcoord const & config )
	{
		std::unique_lock< std::mutex > lock( self.m_buffersMutex );
		if ( !context.vkCreateBuffer )
			return nullptr;
		auto owned = std::make_unique< VertexBuffer >();
		auto triangle = owned.get();
		VkBufferCreateInfo info{};
		info.sType = VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO;
		info.size = 3u * sizeof( Point );
		info.usage = VK_BUFFER_USAGE_VERTEX_BUFFER_BIT;
		auto res = context.vkCreateBuffer( context.device, &info, context.allocator, &triangle->buffer.buffer() );
		checkVkResult( res, "creation" );
		crgRegisterObject( context, "QuadVertexBuffer_" + suffix, triangle->buffer.buffer() );
		try
		{
			if ( context.device )
			{
				VkMemoryRequirements needs{};
				context.vkGetBufferMemoryRequirements( context.device, triangle->buffer.buffer(), &needs );
				VkMemoryAllocateInfo allocation{};
				allocation.sType = VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO;
				allocation.allocationSize = needs.size;
				allocation.memoryTypeIndex = context.deduceMemoryType( needs.memoryTypeBits, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT );
				VkDeviceMemory memory{};
				res = context.vkAllocateMemory( context.device, &allocation, context.allocator, &memory );
				checkVkResult( res, "allocation" );
				triangle->memory = memory;
				crgRegisterObject( context, "QuadVertexMemory_" + suffix, triangle->memory );
				res = context.vkBindBufferMemory( context.device, triangle->buffer.buffer(), triangle->memory, 0u );
				checkVkResult( res, "binding" );
				Point * mapped{};
				res = context.vkMapMemory( context.device, triangle->memory, 0u, VK_WHOLE_SIZE, 0u, reinterpret_cast< void ** >( &mapped ) );
				checkVkResult( res, "mapping" );
				if ( mapped )
				{
					float left = config.invertU ? 1.0f : 0.0f;
					float right = config.invertU ? -1.0f : 2.0f;
					float top = config.invertV ? 2.0f : -1.0f;
					float bottom = config.invertV ? 0.0f : 1.0f;
					std::array< Point, 3u > points{ Point{ { -1.0f, -3.0f }, { left, top } }
						, Point{ { -1.0f, 1.0f }, { left, bottom } }
						, Point{ { 3.0f, 1.0f }, { right, bottom } } };
					std::copy( points.begin(), points.end(), mapped );
					VkMappedMemoryRange range{};
					range.sType = VK_STRUCTURE_TYPE_MAPPED_MEMORY_RANGE;
					range.memory = triangle->memory;
					range.size = VK_WHOLE_SIZE;
					context.vkFlushMappedMemoryRanges( context.device, 1u, &range );
					context.vkUnmapMemory( context.device, triangle->memory );
				}
				triangle->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, 0u } );
				if ( coords )
					triangle->vertexAttribs.push_back( { 1u, 0u, VK_FORMAT_R32G32_SFLOAT, 2u * sizeof( float ) } );
				triangle->vertexBindings.push_back( { 0u, sizeof( Point ), VK_VERTEX_INPUT_RATE_VERTEX } );
				VkPipelineVertexInputStateCreateInfo state{};
				state.sType = VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO;
				state.vertexBindingDescriptionCount = uint32_t( triangle->vertexBindings.size() );
				state.pVertexBindingDescriptions = triangle->vertexBindings.data();
				state.vertexAttributeDescriptionCount = uint32_t( triangle->vertexAttribs.size() );
				state.pVertexAttributeDescriptions = triangle->vertexAttribs.data();
				triangle->inputState = state;
			}
		}
		catch ( ... )
		{
			dropTriangle( context, *triangle );
			throw;
		}
		self.m_vertexBuffers.emplace( std::move( owned ) );
		return triangle;
	}
	void unmakeTriangle( ResourceHandler & self, GraphContext & context, VertexBuffer const * triangle )
	{
		std::unique_lock< std::mutex > lock( self.m_buffersMutex );
		auto it = std::find_if( self.m_vertexBuffers.begin(), self.m_vertexBuffers.end(), [triangle]( VertexBufferPtr const & lookup ) { return lookup.get() == triangle; } );
		if ( it == self.m_vertexBuffers.end() )
			return;
		dropTriangle( context, **it );
		self.m_vertexBuffers.erase( it );
	}
	VertexBuffer const & cacheTriangle( ContextResourcesCache & self, bool coords, Texcoord const & config )
	{
		size_t key = crg::reshdl::makeHash( coords, config );
		auto it = self.m_vertexBuffers.find( key );
		if ( it == self.m_vertexBuffers.end() )
			it = self.m_vertexBuffers.try_emplace( key, self.m_handler.createQuadTriVertexBuffer( self.m_context, std::to_string( key ), coords, config ) ).first;
		return *it->second;
	}
	// what has not been destroyed is reported
	void reportResources( ResourceHandler & self )
	{
		for ( auto & view : self.m_imageViews )
			Logger::logError( view.first.data->name );
		for ( auto & image : self.m_images )
			Logger::logError( image.first.data->name );
		for ( auto & triangle : self.m_vertexBuffers )
		{
			if ( triangle->memory )
				Logger::logError( triangle->buffer.name );
			if ( triangle->buffer.buffer() )
				Logger::logError( triangle->buffer.name );
		}
		for ( auto & sampler : self.m_samplers )
			Logger::logError( sampler.second.name );
	}
}
