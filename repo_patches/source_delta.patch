From e91d9893e9202bcd2355323eee9a13569eb42e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 01/27] fix: blit regions end at offset + extent instead of at
 the extent

---
 source/RenderGraph/RecordContext.cpp            | 4 ++--
 source/RenderGraph/RunnablePasses/ImageBlit.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4b08707..9dc8aa5 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -452,10 +452,10 @@ namespace crg
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
-					, VkOffset3D{ int32_t( srcExtent.width ), int32_t( srcExtent.height ), 1 } }
+					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
 				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
-					, VkOffset3D{ int32_t( dstExtent.width ), int32_t( dstExtent.height ), 1 } } };
+					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
 				, srcView.data->image
 				, srcView.data->info.viewType
diff --git a/source/RenderGraph/RunnablePasses/ImageBlit.cpp b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
index f6de0e2..b3736e7 100644
--- a/source/RenderGraph/RunnablePasses/ImageBlit.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
@@ -61,9 +61,9 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		VkImageBlit blitRegion{ imgBlit::convert( srcAttach.data->info.subresourceRange )
-			, { m_srcOffset, VkOffset3D{ int32_t( m_srcSize.width ), int32_t( m_srcSize.height ), int32_t( m_srcSize.depth ) } }
+			, { m_srcOffset, VkOffset3D{ m_srcOffset.x + int32_t( m_srcSize.width ), m_srcOffset.y + int32_t( m_srcSize.height ), m_srcOffset.z + int32_t( m_srcSize.depth ) } }
 			, imgBlit::convert( dstAttach.data->info.subresourceRange )
-			, { m_dstOffset, VkOffset3D{ int32_t( m_dstSize.width ), int32_t( m_dstSize.height ), int32_t( m_dstSize.depth ) } } };
+			, { m_dstOffset, VkOffset3D{ m_dstOffset.x + int32_t( m_dstSize.width ), m_dstOffset.y + int32_t( m_dstSize.height ), m_dstOffset.z + int32_t( m_dstSize.depth ) } } };
 		context->vkCmdBlitImage( commandBuffer
 			, srcImage
 			, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
-- 
2.43.0


From f1e7008cca7579a71bf6e11795e91dd4be57f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 02/27] fix: dispatch uses the Y and Z group count callbacks
 for Y and Z

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index e872569..68e39ee 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -96,8 +96,8 @@ namespace crg
 		{
 			context->vkCmdDispatch( commandBuffer
 				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
-				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountY )
-				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountZ ) );
+				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
+				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
 		}
 
 		m_cpConfig.end( context, commandBuffer, index );
-- 
2.43.0


From 327f7d361eb94807fee427cb95c3d87eafb93113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 03/27] fix: layer ranges overlap test uses the second range's
 own layer count

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index e232e5c..7d11897 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -321,7 +321,7 @@ namespace crg::builder
 				&& areIntersecting( lhs.baseArrayLayer
 					, lhs.layerCount
 					, rhs.baseArrayLayer
-					, lhs.layerCount );
+					, rhs.layerCount );
 		}
 
 		static bool areOverlapping( ImageViewData const & lhs
-- 
2.43.0


From 11b41e85ed788cbaae402256275124d14b00a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 04/27] fix: GPU time is the tick count times the device's
 timestamp period

---
 source/RenderGraph/FramePassTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 63962d3..a49e1f0 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -126,7 +126,7 @@ namespace crg
 
 	void FramePassTimer::retrieveGpuTime()noexcept
 	{
-		static float const period = m_context.properties.limits.timestampPeriod;
+		float const period = m_context.properties.limits.timestampPeriod;
 
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
@@ -143,7 +143,7 @@ namespace crg
 				, sizeof( uint64_t )
 				, VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
 
-			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) / period ) };
+			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) * period ) };
 			m_gpuTime += gpuTime;
 
 			query.started = false;
-- 
2.43.0


From 7a36ac368d3e67f5777395633b29648d3ae0f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 05/27] fix: announce the next use of every image a following
 pass uses, not of one only

---
 source/RenderGraph/RunnableGraph.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 5353d57..13ba843 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -94,19 +94,20 @@ namespace crg
 					nextPass.isEnabled() )
 				{
 					auto & nextLayouts = nextPass.getImageLayouts();
-					LayerLayoutStates layoutStates;
-					auto currIt = std::find_if( currentLayouts.begin()
-						, currentLayouts.end()
-						, [&nextLayouts, &layoutStates]( LayerLayoutStatesMap::value_type const & lookup )
-						{
-							layoutStates = mergeRanges( nextLayouts, lookup );
-							return !layoutStates.empty();
-						} );
+					auto currIt = currentLayouts.begin();
 
-					if ( currIt != currentLayouts.end() )
+					while ( currIt != currentLayouts.end() )
 					{
-						result.try_emplace( currIt->first, layoutStates );
-						currentLayouts.erase( currIt );
+						if ( auto layoutStates = mergeRanges( nextLayouts, *currIt );
+							!layoutStates.empty() )
+						{
+							result.try_emplace( currIt->first, std::move( layoutStates ) );
+							currIt = currentLayouts.erase( currIt );
+						}
+						else
+						{
+							++currIt;
+						}
 					}
 				}
 				
-- 
2.43.0


From 34de37f9eb9fe741fe5a8245711f513b94f831ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 06/27] fix: a new signal connection never takes the index of a
 live one

---
 include/RenderGraph/Signal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 3e4d3ca..38d4711 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -170,7 +170,7 @@ namespace crg
 		*/
 		my_connection connect( Function function )
 		{
-			uint32_t index = uint32_t( m_slots.size() ) + 1u;
+			uint32_t index = m_slots.empty() ? 1u : m_slots.rbegin()->first + 1u;
 			m_slots.emplace( index, function );
 			return my_connection{ index, *this };
 		}
-- 
2.43.0


From faeb90992c3b252160db6ba635830454d2555c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 07/27] fix: a context cache forgets the images and views it
 destroyed

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bada67f..86ddc86 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -572,6 +572,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImage( m_context, imageId );
+			m_images.erase( it );
 		}
 
 		return result;
@@ -585,6 +586,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImageView( m_context, viewId );
+			m_imageViews.erase( it );
 		}
 
 		return result;
-- 
2.43.0


From 344c9e98b49f1b01247129e907b946b4ee27f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 08/27] fix: the context cache that creates a view owns the
 image created for it

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 86ddc86..0d84856 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -554,6 +554,8 @@ namespace crg
 
 	VkImageView ContextResourcesCache::createImageView( ImageViewId const & view )
 	{
+		// The image is needed by the view, creating it here makes this cache its owner.
+		createImage( view.data->image );
 		auto [result, created] = m_handler.createImageView( m_context, view );
 
 		if ( created )
-- 
2.43.0


From b23dec11106eee8e6211fe8cde18239103d7cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 09/27] fix: a failed sampler creation leaves no null sampler
 behind

---
 source/RenderGraph/ResourceHandler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 0d84856..f654d5e 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -294,8 +294,8 @@ namespace crg
 				, &createInfo
 				, context.allocator
 				, &result );
-			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			checkVkResult( res, "Sampler creation" );
+			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			sampler.name = "Sampler_" + suffix;
 			crgRegisterObject( context, sampler.name, result );
 		}
@@ -597,13 +597,13 @@ namespace crg
 	VkSampler ContextResourcesCache::createSampler( SamplerDesc const & samplerDesc )
 	{
 		auto hash = reshdl::makeHash( samplerDesc );
-		auto [it, res] = m_samplers.try_emplace( hash, VkSampler{} );
+		auto it = m_samplers.find( hash );
 
-		if ( res )
+		if ( it == m_samplers.end() )
 		{
-			it->second = m_handler.createSampler( m_context
+			it = m_samplers.try_emplace( hash, m_handler.createSampler( m_context
 				, std::to_string( hash )
-				, samplerDesc );
+				, samplerDesc ) ).first;
 		}
 
 		return it->second;
-- 
2.43.0


From f8e778f88ae8880e4efcc3d226dc58689d59c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 10/27] fix: a failed image or view creation leaks nothing and
 caches no null handle

---
 source/RenderGraph/ResourceHandler.cpp | 99 +++++++++++++++++---------
 1 file changed, 67 insertions(+), 32 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index f654d5e..9bd1126 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -48,6 +48,60 @@ namespace crg
 			return result;
 		}
 
+		static VkDeviceMemory createImageMemory( GraphContext & context
+			, std::string const & name
+			, VkImage image )
+		{
+			VkDeviceMemory result{};
+
+			try
+			{
+				// Create Image memory
+				VkMemoryRequirements requirements{};
+				context.vkGetImageMemoryRequirements( context.device
+					, image
+					, &requirements );
+				uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
+					, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
+				VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
+					, nullptr
+					, requirements.size
+					, deduced };
+				VkDeviceMemory memory{};
+				auto res = context.vkAllocateMemory( context.device
+					, &allocateInfo
+					, context.allocator
+					, &memory );
+				checkVkResult( res, "Image memory allocation" );
+				result = memory;
+				crgRegisterObjectName( context, name, memory );
+
+				// Bind image and memory
+				res = context.vkBindImageMemory( context.device
+					, image
+					, memory
+					, 0u );
+				checkVkResult( res, "Image memory binding" );
+			}
+			catch ( ... )
+			{
+				// The image is unusable without its memory.
+				if ( context.vkFreeMemory && result )
+				{
+					context.vkFreeMemory( context.device, result, context.allocator );
+				}
+
+				if ( context.vkDestroyImage )
+				{
+					context.vkDestroyImage( context.device, image, context.allocator );
+				}
+
+				throw;
+			}
+
+			return result;
+		}
+
 		template< typename T >
 		static size_t hashCombine( size_t hash
 			, T const & rhs )
@@ -182,49 +236,28 @@ namespace crg
 		{
 			bool created{};
 			lock_type lock( m_imagesMutex );
-			auto [it, ins] = m_images.try_emplace( imageId, std::pair< VkImage, VkDeviceMemory >{} );
+			auto it = m_images.find( imageId );
 
-			if ( ins )
+			if ( it == m_images.end() )
 			{
 				// Create image
+				VkImage image{};
 				auto createInfo = reshdl::convert( *imageId.data );
 				auto res = context.vkCreateImage( context.device
 					, &createInfo
 					, context.allocator
-					, &it->second.first );
-				auto image = it->second.first;
+					, &image );
 				checkVkResult( res, "Image creation" );
 				crgRegisterObjectName( context, imageId.data->name, image );
+				VkDeviceMemory memory{};
 
 				if ( context.device )
 				{
-					// Create Image memory
-					VkMemoryRequirements requirements{};
-					context.vkGetImageMemoryRequirements( context.device
-						, image
-						, &requirements );
-					uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
-						, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
-					VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
-						, nullptr
-						, requirements.size
-						, deduced };
-					res = context.vkAllocateMemory( context.device
-						, &allocateInfo
-						, context.allocator
-						, &it->second.second );
-					auto memory = it->second.second;
-					checkVkResult( res, "Image memory allocation" );
-					crgRegisterObjectName( context, imageId.data->name, memory );
-
-					// Bind image and memory
-					res = context.vkBindImageMemory( context.device
-						, image
-						, memory
-						, 0u );
-					checkVkResult( res, "Image memory binding" );
+					memory = reshdl::createImageMemory( context, imageId.data->name, image );
 					created = true;
 				}
+
+				it = m_images.try_emplace( imageId, image, memory ).first;
 			}
 
 			result = { it->second.first, created };
@@ -242,17 +275,19 @@ namespace crg
 		{
 			bool created{};
 			lock_type lock( m_viewsMutex );
-			auto [it, ins] = m_imageViews.try_emplace( view, VkImageView{} );
+			auto it = m_imageViews.find( view );
 
-			if ( ins )
+			if ( it == m_imageViews.end() )
 			{
+				VkImageView imageView{};
 				auto image = createImage( context, view.data->image ).first;
 				auto createInfo = reshdl::convert( *view.data, image );
 				auto res = context.vkCreateImageView( context.device
 					, &createInfo
 					, context.allocator
-					, &it->second );
+					, &imageView );
 				checkVkResult( res, "ImageView creation" );
+				it = m_imageViews.try_emplace( view, imageView ).first;
 				crgRegisterObjectName( context, view.data->name, it->second );
 				created = true;
 			}
-- 
2.43.0


From 0afd9326afe6a57256884c2bb76c6bbf7adf574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 11/27] fix: a failed quad vertex buffer creation caches no
 null buffer

---
 source/RenderGraph/ResourceHandler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 9bd1126..ec20924 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -648,14 +648,14 @@ namespace crg
 		, Texcoord const & config )
 	{
 		auto hash = reshdl::makeHash( texCoords, config );
-		auto [it, res] = m_vertexBuffers.emplace( hash, nullptr );
+		auto it = m_vertexBuffers.find( hash );
 
-		if ( res )
+		if ( it == m_vertexBuffers.end() )
 		{
-			it->second = m_handler.createQuadTriVertexBuffer( m_context
+			it = m_vertexBuffers.emplace( hash, m_handler.createQuadTriVertexBuffer( m_context
 				, std::to_string( hash )
 				, texCoords
-				, config );
+				, config ) ).first;
 		}
 
 		return *it->second;
-- 
2.43.0


From 8775fb43e82982761996f79d19659a1aeb2ad729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 12/27] fix: a compute pass sampling an image waits at the
 compute shader stage

---
 source/RenderGraph/Attachment.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 00426d3..c3484b4 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -392,7 +392,14 @@ namespace crg
 
 		if ( isSampledView() )
 		{
-			result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
+			if ( isCompute )
+			{
+				result |= VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
+			}
+			else
+			{
+				result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
+			}
 		}
 		else if ( isTransitionView() )
 		{
-- 
2.43.0


From 06e406b597258b3554fa77e0518c435f6945144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 13/27] fix: views that only differ by their swizzle are
 different views

---
 include/RenderGraph/ImageViewData.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 4e28351..824aa44 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -53,6 +53,10 @@ namespace crg
 		return lhs.flags == rhs.flags
 			&& lhs.viewType == rhs.viewType
 			&& lhs.format == rhs.format
+			&& lhs.components.r == rhs.components.r
+			&& lhs.components.g == rhs.components.g
+			&& lhs.components.b == rhs.components.b
+			&& lhs.components.a == rhs.components.a
 			&& lhs.subresourceRange == rhs.subresourceRange;
 	}
 
-- 
2.43.0


From f9edf835387c0cdaaeef669128cbb23bc04380bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 14/27] fix: the extent of a mip level is never zero

---
 source/RenderGraph/FrameGraph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 0ef05c2..55bb8ea 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -354,9 +354,9 @@ namespace crg
 	VkExtent3D getMipExtent( ImageViewId const & image )
 	{
 		auto result = getExtent( image.data->image );
-		result.width >>= image.data->info.subresourceRange.baseMipLevel;
-		result.height >>= image.data->info.subresourceRange.baseMipLevel;
-		result.depth >>= image.data->info.subresourceRange.baseMipLevel;
+		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
+		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
+		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
 		return result;
 	}
 
-- 
2.43.0


From 4200b0c0ae3145694ffe44adbbbc11619c6408b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 15/27] fix: merging views never yields an unrelated view of
 the same range

---
 include/RenderGraph/ImageViewData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 824aa44..39ce7f9 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -63,6 +63,7 @@ namespace crg
 	inline bool operator==( ImageViewData const & lhs, ImageViewData const & rhs )
 	{
 		return lhs.image == rhs.image
-			&& lhs.info == rhs.info;
+			&& lhs.info == rhs.info
+			&& lhs.source == rhs.source;
 	}
 }
-- 
2.43.0


From 25e72251469a5b178540d8ec0970380255ad310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 16/27] fix: a 3D view of a small mip level covers one depth
 slice, not none

---
 source/RenderGraph/FrameGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 55bb8ea..2876732 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -631,7 +631,7 @@ namespace crg
 				|| range.levelCount == image.data->info.mipLevels ) )
 		{
 			result.baseArrayLayer = 0u;
-			result.layerCount = getExtent( image ).depth >> range.baseMipLevel;
+			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
 		}
 
 		return result;
-- 
2.43.0


From a076371fbd2e08e107e8856f572e52023db554db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 17/27] fix: an attachment split out of a merged view refers to
 its own view

---
 source/RenderGraph/Attachment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index c3484b4..062c3fd 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -443,6 +443,7 @@ namespace crg
 		, bufferAttach{ origin.bufferAttach }
 		, flags{ origin.flags }
 	{
+		imageAttach.views = { std::move( view ) };
 	}
 
 	Attachment::Attachment( ImageViewId view )
-- 
2.43.0


From 036cf72af398d11b2e6ae64b4fe06874f2236039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 18/27] fix: attachments bound to nothing else keep their own
 transition in the graph

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 7d11897..ad993bd 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -553,14 +553,14 @@ namespace crg::builder
 			{
 				ViewTransition transition{ attach.view(), Attachment::createDefault( attach.view() ), attach };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				ViewTransition transition{ attach.view(), attach, Attachment::createDefault( attach.view() ) };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.viewTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
@@ -574,14 +574,14 @@ namespace crg::builder
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, Attachment::createDefault( attach.bufferAttach.buffer ), attach };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, attach, Attachment::createDefault( attach.bufferAttach.buffer ) };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.bufferTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
-- 
2.43.0


From 91dd2a35cf015492503a74e8898765389ee85814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 19/27] fix: the dependency cache no longer mixes up buffers
 sharing their low 32 bits

---
 .../RenderGraph/FrameGraphPrerequisites.hpp   |  3 +-
 source/RenderGraph/FramePass.cpp              | 30 ++++---------------
 2 files changed, 8 insertions(+), 25 deletions(-)

diff --git a/include/RenderGraph/FrameGraphPrerequisites.hpp b/include/RenderGraph/FrameGraphPrerequisites.hpp
index faa5cf9..093e497 100644
--- a/include/RenderGraph/FrameGraphPrerequisites.hpp
+++ b/include/RenderGraph/FrameGraphPrerequisites.hpp
@@ -68,7 +68,8 @@ namespace crg
 
 	using ImageId = Id< ImageData >;
 	using ImageViewId = Id< ImageViewData >;
-	using DependencyCache = std::unordered_map< size_t, bool >;
+	using DependencyKey = std::pair< uint32_t, uint64_t >;
+	using DependencyCache = std::map< DependencyKey, bool >;
 	using PassDependencyCache = std::unordered_map< FramePass const *, DependencyCache >;
 
 	using FramePassPtr = std::unique_ptr< FramePass >;
diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index ea3994a..20451ea 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -155,34 +155,16 @@ namespace crg
 			return result.substr( index );
 		}
 
-		static size_t makeHash( FramePass const & pass
+		static DependencyKey makeKey( FramePass const & pass
 			, ImageViewId const & view )
 		{
-			if constexpr ( sizeof( size_t ) == sizeof( uint64_t ) )
-			{
-				return size_t( pass.id ) << 32u
-					| size_t( view.id );
-			}
-			else
-			{
-				return size_t( pass.id ) << 16u
-					| size_t( view.id );
-			}
+			return { pass.id, view.id };
 		}
 
-		static size_t makeHash( FramePass const & pass
+		static DependencyKey makeKey( FramePass const & pass
 			, Buffer const & buffer )
 		{
-			if constexpr ( sizeof( size_t ) == sizeof( uint64_t ) )
-			{
-				return size_t( pass.id ) << 32u
-					| ( ptrdiff_t( buffer.buffer() ) & 0xFFFFFFFF );
-			}
-			else
-			{
-				return size_t( pass.id ) << 16u
-					| ( ptrdiff_t( buffer.buffer() ) & 0x0000FFFF );
-			}
+			return { pass.id, uint64_t( buffer.buffer() ) };
 		}
 	}
 
@@ -204,7 +186,7 @@ namespace crg
 		, PassDependencyCache & cache )const
 	{
 		auto & passCache = cache.try_emplace( this ).first->second;
-		auto [rit, res] = passCache.emplace( fpass::makeHash( pass, view ), false );
+		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, view ), false );
 
 		if ( res )
 		{
@@ -236,7 +218,7 @@ namespace crg
 		, PassDependencyCache & cache )const
 	{
 		auto & passCache = cache.try_emplace( this ).first->second;
-		auto [rit, res] = passCache.emplace( fpass::makeHash( pass, buffer ), false );
+		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, buffer ), false );
 
 		if ( res )
 		{
-- 
2.43.0


From 4006843452d375f3ac75d6f87483428db41cd4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 20/27] fix: the render area is that of the views of its own
 pass index, never empty

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 92378b1..6c026db 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -362,12 +362,11 @@ namespace crg
 				|| attach.isDepthAttach()
 				|| attach.isStencilAttach() )
 			{
-				auto view = attach.view();
+				auto view = attach.view( index );
+				auto extent = getMipExtent( view );
 				m_passes[index].attachments.push_back( &attach );
-				width = std::max( width
-					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
-				height = std::max( height
-					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
+				width = std::max( width, extent.width );
+				height = std::max( height, extent.height );
 				m_layers = std::max( m_layers
 					, view.data->info.subresourceRange.layerCount );
 			}
-- 
2.43.0


From 1010be6740cd265c10b326749f3391ec8372e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 21/27] fix: pass indices sharing a compute program share its
 pipeline instead of leaking it

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index 68e39ee..d36dc31 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -105,6 +105,11 @@ namespace crg
 
 	void ComputePass::doCreatePipeline( uint32_t index )
 	{
+		if ( m_pipeline.getPipeline( index ) )
+		{
+			return;
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkComputePipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From d6a273f4186bafb96f6c8750c0c29205136a2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 22/27] fix: devices are named to the debug layers as devices,
 not as physical devices

---
 include/RenderGraph/GraphContext.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/RenderGraph/GraphContext.hpp b/include/RenderGraph/GraphContext.hpp
index e68685e..f052ba5 100644
--- a/include/RenderGraph/GraphContext.hpp
+++ b/include/RenderGraph/GraphContext.hpp
@@ -49,10 +49,10 @@ namespace crg
 	struct DebugTypeTraits< VkDevice >
 	{
 #if VK_EXT_debug_utils
-		static VkObjectType constexpr UtilsValue = VK_OBJECT_TYPE_PHYSICAL_DEVICE;
+		static VkObjectType constexpr UtilsValue = VK_OBJECT_TYPE_DEVICE;
 #endif
 #if VK_EXT_debug_report || VK_EXT_debug_marker
-		static VkDebugReportObjectTypeEXT constexpr ReportValue = VK_DEBUG_REPORT_OBJECT_TYPE_PHYSICAL_DEVICE_EXT;
+		static VkDebugReportObjectTypeEXT constexpr ReportValue = VK_DEBUG_REPORT_OBJECT_TYPE_DEVICE_EXT;
 #endif
 		static inline std::string Name{ "VkDevice" };
 	};
-- 
2.43.0


From dd516b4248872e131bc1f614182570f249f8edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 23/27] fix: a quad buffer whose memory cannot be set up is
 destroyed

---
 source/RenderGraph/ResourceHandler.cpp | 190 +++++++++++++------------
 1 file changed, 102 insertions(+), 88 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index ec20924..6319271 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -102,6 +102,26 @@ namespace crg
 			return result;
 		}
 
+		static void destroyBuffer( GraphContext & context
+			, VertexBuffer & vertexBuffer )
+		{
+			if ( context.vkFreeMemory && vertexBuffer.memory )
+			{
+				crgUnregisterObject( context, vertexBuffer.memory );
+				context.vkFreeMemory( context.device
+					, vertexBuffer.memory
+					, context.allocator );
+			}
+
+			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
+			{
+				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
+				context.vkDestroyBuffer( context.device
+					, vertexBuffer.buffer.buffer()
+					, context.allocator );
+			}
+		}
+
 		template< typename T >
 		static size_t hashCombine( size_t hash
 			, T const & rhs )
@@ -365,82 +385,93 @@ namespace crg
 			checkVkResult( res, "Vertex buffer creation" );
 			crgRegisterObject( context, "QuadVertexBuffer_" + suffix, vertexBuffer->buffer.buffer() );
 
-			if ( context.device )
+			try
 			{
-				VkMemoryRequirements requirements{};
-				context.vkGetBufferMemoryRequirements( context.device
-					, vertexBuffer->buffer.buffer()
-					, &requirements );
-				uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
-					, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT );
-				VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
-					, nullptr
-					, requirements.size
-					, deduced };
-				res = context.vkAllocateMemory( context.device
-					, &allocateInfo
-					, context.allocator
-					, &vertexBuffer->memory );
-				checkVkResult( res, "Buffer memory allocation" );
-				crgRegisterObject( context, "QuadVertexMemory_" + suffix, vertexBuffer->memory );
-
-				res = context.vkBindBufferMemory( context.device
-					, vertexBuffer->buffer.buffer()
-					, vertexBuffer->memory
-					, 0u );
-				checkVkResult( res, "Buffer memory binding" );
-
-				reshdl::Quad::Vertex * buffer{};
-				res = context.vkMapMemory( context.device
-					, vertexBuffer->memory
-					, 0u
-					, VK_WHOLE_SIZE
-					, 0u
-					, reinterpret_cast< void ** >( &buffer ) );
-				checkVkResult( res, "Buffer memory mapping" );
-
-				if ( buffer )
+				if ( context.device )
 				{
-					auto rangeU = 1.0;
-					auto minU = 0.0;
-					auto maxU = minU + 2.0 * rangeU;
-					auto rangeV = 1.0;
-					auto minV = -rangeV;
-					auto maxV = minV + 2.0 * rangeV;
-					auto realMinU = float( config.invertU ? maxU : minU );
-					auto realMaxU = float( config.invertU ? minU : maxU );
-					auto realMinV = float( config.invertV ? maxV : minV );
-					auto realMaxV = float( config.invertV ? minV : maxV );
-					std::array<reshdl::Quad::Vertex, 3u > vertexData
-					{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
-						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
-					, reshdl::Quad::Vertex{ reshdl::Quad::Data{ +3.0f, +1.0f }, reshdl::Quad::Data{ realMaxU, realMaxV } } };
-					std::copy( vertexData.begin(), vertexData.end(), buffer );
-
-					VkMappedMemoryRange memoryRange{ VK_STRUCTURE_TYPE_MAPPED_MEMORY_RANGE
+					VkMemoryRequirements requirements{};
+					context.vkGetBufferMemoryRequirements( context.device
+						, vertexBuffer->buffer.buffer()
+						, &requirements );
+					uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
+						, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT );
+					VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
 						, nullptr
+						, requirements.size
+						, deduced };
+					VkDeviceMemory memory{};
+					res = context.vkAllocateMemory( context.device
+						, &allocateInfo
+						, context.allocator
+						, &memory );
+					checkVkResult( res, "Buffer memory allocation" );
+					vertexBuffer->memory = memory;
+					crgRegisterObject( context, "QuadVertexMemory_" + suffix, vertexBuffer->memory );
+
+					res = context.vkBindBufferMemory( context.device
+						, vertexBuffer->buffer.buffer()
 						, vertexBuffer->memory
-						, 0u
-						, VK_WHOLE_SIZE };
-					context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
-					context.vkUnmapMemory( context.device, vertexBuffer->memory );
-				}
-
-				vertexBuffer->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, position ) } );
+						, 0u );
+					checkVkResult( res, "Buffer memory binding" );
 
-				if ( texCoords )
-				{
-					vertexBuffer->vertexAttribs.push_back( { 1u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, texture ) } );
+					reshdl::Quad::Vertex * buffer{};
+					res = context.vkMapMemory( context.device
+						, vertexBuffer->memory
+						, 0u
+						, VK_WHOLE_SIZE
+						, 0u
+						, reinterpret_cast< void ** >( &buffer ) );
+					checkVkResult( res, "Buffer memory mapping" );
+
+					if ( buffer )
+					{
+						auto rangeU = 1.0;
+						auto minU = 0.0;
+						auto maxU = minU + 2.0 * rangeU;
+						auto rangeV = 1.0;
+						auto minV = -rangeV;
+						auto maxV = minV + 2.0 * rangeV;
+						auto realMinU = float( config.invertU ? maxU : minU );
+						auto realMaxU = float( config.invertU ? minU : maxU );
+						auto realMinV = float( config.invertV ? maxV : minV );
+						auto realMaxV = float( config.invertV ? minV : maxV );
+						std::array<reshdl::Quad::Vertex, 3u > vertexData
+						{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
+							, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
+						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ +3.0f, +1.0f }, reshdl::Quad::Data{ realMaxU, realMaxV } } };
+						std::copy( vertexData.begin(), vertexData.end(), buffer );
+
+						VkMappedMemoryRange memoryRange{ VK_STRUCTURE_TYPE_MAPPED_MEMORY_RANGE
+							, nullptr
+							, vertexBuffer->memory
+							, 0u
+							, VK_WHOLE_SIZE };
+						context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
+						context.vkUnmapMemory( context.device, vertexBuffer->memory );
+					}
+
+					vertexBuffer->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, position ) } );
+
+					if ( texCoords )
+					{
+						vertexBuffer->vertexAttribs.push_back( { 1u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, texture ) } );
+					}
+
+					vertexBuffer->vertexBindings.push_back( { 0u, sizeof( reshdl::Quad::Vertex ), VK_VERTEX_INPUT_RATE_VERTEX } );
+					vertexBuffer->inputState = VkPipelineVertexInputStateCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO
+						, nullptr
+						, 0u
+						, uint32_t( vertexBuffer->vertexBindings.size() )
+						, vertexBuffer->vertexBindings.data()
+						, uint32_t( vertexBuffer->vertexAttribs.size() )
+						, vertexBuffer->vertexAttribs.data() };
 				}
-
-				vertexBuffer->vertexBindings.push_back( { 0u, sizeof( reshdl::Quad::Vertex ), VK_VERTEX_INPUT_RATE_VERTEX } );
-				vertexBuffer->inputState = VkPipelineVertexInputStateCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO
-					, nullptr
-					, 0u
-					, uint32_t( vertexBuffer->vertexBindings.size() )
-					, vertexBuffer->vertexBindings.data()
-					, uint32_t( vertexBuffer->vertexAttribs.size() )
-					, vertexBuffer->vertexAttribs.data() };
+			}
+			catch ( ... )
+			{
+				// The buffer is unusable without its content.
+				reshdl::destroyBuffer( context, *vertexBuffer );
+				throw;
 			}
 
 			m_vertexBuffers.emplace( std::move( result ) );
@@ -521,24 +552,7 @@ namespace crg
 
 		if ( it != m_vertexBuffers.end() )
 		{
-			auto & vertexBuffer = **it;
-
-			if ( context.vkFreeMemory && vertexBuffer.memory )
-			{
-				crgUnregisterObject( context, vertexBuffer.memory );
-				context.vkFreeMemory( context.device
-					, vertexBuffer.memory
-					, context.allocator );
-			}
-
-			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
-			{
-				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
-				context.vkDestroyBuffer( context.device
-					, vertexBuffer.buffer.buffer()
-					, context.allocator );
-			}
-
+			reshdl::destroyBuffer( context, **it );
 			m_vertexBuffers.erase( it );
 		}
 	}
-- 
2.43.0


From c6093d6029b0c0ca75bcdf2f991c3fe34ce6c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 24/27] fix: inverted texture coordinates of the full-screen
 triangle mirror the image

---
 source/RenderGraph/ResourceHandler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 6319271..9e18605 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -431,10 +431,10 @@ namespace crg
 						auto rangeV = 1.0;
 						auto minV = -rangeV;
 						auto maxV = minV + 2.0 * rangeV;
-						auto realMinU = float( config.invertU ? maxU : minU );
-						auto realMaxU = float( config.invertU ? minU : maxU );
-						auto realMinV = float( config.invertV ? maxV : minV );
-						auto realMaxV = float( config.invertV ? minV : maxV );
+						auto realMinU = float( config.invertU ? 1.0 - minU : minU );
+						auto realMaxU = float( config.invertU ? 1.0 - maxU : maxU );
+						auto realMinV = float( config.invertV ? 1.0 - minV : minV );
+						auto realMaxV = float( config.invertV ? 1.0 - maxV : maxV );
 						std::array<reshdl::Quad::Vertex, 3u > vertexData
 						{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
 							, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
-- 
2.43.0


From 6f20be574b212a458bd523d3007f8f247d77ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:51 +0000
Subject: [PATCH 25/27] fix: setting several push constant ranges on a compute
 pass configuration does not compile

---
 include/RenderGraph/RunnablePasses/ComputePass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/RenderGraph/RunnablePasses/ComputePass.hpp b/include/RenderGraph/RunnablePasses/ComputePass.hpp
index 8585443..e294594 100644
--- a/include/RenderGraph/RunnablePasses/ComputePass.hpp
+++ b/include/RenderGraph/RunnablePasses/ComputePass.hpp
@@ -216,7 +216,7 @@ namespace crg
 			*/
 			auto & pushConstants( VkPushConstantRangeArray config )
 			{
-				m_baseConfig.m_pushConstants( std::move( config ) );
+				m_baseConfig.pushConstants( std::move( config ) );
 				return *this;
 			}
 
-- 
2.43.0


From 50fc9f2962c7ceae27cca8179182ea8cc328b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:59 +0000
Subject: [PATCH 26/27] fix: giving a compute pass configuration an index
 variable does not compile

---
 include/RenderGraph/RunnablePasses/ComputePass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/ComputePass.hpp b/include/RenderGraph/RunnablePasses/ComputePass.hpp
index e294594..1f54831 100644
--- a/include/RenderGraph/RunnablePasses/ComputePass.hpp
+++ b/include/RenderGraph/RunnablePasses/ComputePass.hpp
@@ -78,10 +78,10 @@ namespace crg
 			*/
 			auto & passIndex( uint32_t const * config )
 			{
-				m_getPassIndex = [config]()
+				m_getPassIndex = RunnablePass::GetPassIndexCallback{ [config]()
 				{
 					return *config;
-				};
+				} };
 				return *this;
 			}
 			/**
-- 
2.43.0


From 7285b8c16c94ebadc9ce0b7a6db9b52bf08e2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:24 +0000
Subject: [PATCH 27/27] fix: emit signals safely when a slot connects or
 disconnects slots

---
 include/RenderGraph/Signal.hpp | 44 ++++++++--------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 38d4711..29e4465 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -181,13 +181,14 @@ namespace crg
 		void operator()()const
 		{
 			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
 
 			while ( it != m_slots.end() )
 			{
-				it->second();
-				adjustSlots( size, index, it );
+				// The slots can be changed by the slot itself.
+				auto index = it->first;
+				auto function = it->second;
+				function();
+				it = m_slots.upper_bound( index );
 			}
 		}
 		/**
@@ -200,13 +201,14 @@ namespace crg
 		void operator()( Params && ... params )const
 		{
 			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
 
 			while ( it != m_slots.end() )
 			{
-				it->second( std::forward< Params >( params )... );
-				adjustSlots( size, index, it );
+				// The slots can be changed by the slot itself.
+				auto index = it->first;
+				auto function = it->second;
+				function( params... );
+				it = m_slots.upper_bound( index );
 			}
 		}
 
@@ -249,32 +251,6 @@ namespace crg
 			assert( m_connections.find( &connection ) != m_connections.end() );
 			m_connections.erase( &connection );
 		}
-		/**
-		*\brief
-		*	Adjusts returned slot iterator.
-		*\param[in,out] size
-		*	The expected size, receives the real size.
-		*\param[in,out] index
-		*	The current iteration index.
-		*/
-		template< typename IterT >
-		void adjustSlots( size_t & size
-			, size_t & index
-			, IterT & it )const noexcept
-		{
-			if ( size != m_slots.size() )
-			{
-				// Slots changed by the slot itself.
-				size = m_slots.size();
-				it = m_slots.begin();
-				std::advance( it, index );
-			}
-			else
-			{
-				++index;
-				++it;
-			}
-		}
 
 	private:
 		std::map< uint32_t, Function > m_slots;
-- 
2.43.0

