S = 'source/RenderGraph/'
FP, AT, RH, GC = (S + x for x in ('FramePass.cpp', 'Attachment.cpp', 'ResourceHandler.cpp', 'GraphContext.cpp'))
E = [
('fp-split-copy', [(FP, """			else
			{
				for ( auto & view : attach.view().data->source )
				{
					result.emplace_back( view, attach );
				}
			}
""", """			else
			{
				auto const & sources = attach.view().data->source;
				result.reserve( sources.size() );

				for ( size_t i = 0u; i < sources.size(); ++i )
				{
					result.emplace_back( sources[i], attach );
				}
			}
""")]),
('fp-splitview-return', [(FP, """			ImageViewIdArray result;

			if ( view.data->source.empty() )
			{
				result.push_back( view );
			}
			else
			{
				for ( auto & subview : view.data->source )
				{
					result.push_back( subview );
				}
			}

			return result;
""", """			if ( view.data->source.empty() )
			{
				return { view };
			}

			return view.data->source;
""")]),
('fp-splitview-insert', [(FP, """				for ( auto & subview : view.data->source )
				{
					result.push_back( subview );
				}
""", """				result.insert( result.end(), view.data->source.begin(), view.data->source.end() );
""")]),
('fp-match-any', [(FP, """			for ( auto & lhsAttach : lhsAttaches )
			{
				for ( auto & rhsView : rhsViews )
				{
					if ( predicate( lhsAttach, rhsView ) )
					{
						return true;
					}
				}
			}

			return false;
""", """			return std::any_of( lhsAttaches.begin()
				, lhsAttaches.end()
				, [&rhsViews, &predicate]( Attachment const & lhsAttach )
				{
					return std::any_of( rhsViews.begin()
						, rhsViews.end()
						, [&lhsAttach, &predicate]( ImageViewId const & rhsView )
						{
							return predicate( lhsAttach, rhsView );
						} );
				} );
""")]),
('fp-match-swap', [(FP, """			for ( auto & lhsAttach : lhsAttaches )
			{
				for ( auto & rhsView : rhsViews )
				{
""", """			for ( auto & rhsView : rhsViews )
			{
				for ( auto & lhsAttach : lhsAttaches )
				{
""")]),
('fp-inout-order', [(FP, """								return match( *lhs.view().data, *rhs.data )
									&& lhs.isOutput();
""", """								return lhs.isOutput()
									&& match( *lhs.view().data, *rhs.data );
""")]),
('fp-inout-any', [(FP, """			auto it = std::find_if( pass.buffers.begin()
				, pass.buffers.end()
				, [&buffer]( Attachment const & lookup )
				{
					return lookup.isStorageBuffer()
						&& lookup.bufferAttach.buffer == buffer;
				} );

			return it != pass.buffers.end();
""", """			for ( auto & lookup : pass.buffers )
			{
				if ( lookup.isStorageBuffer() && lookup.bufferAttach.buffer == buffer )
				{
					return true;
				}
			}

			return false;
""")]),
('fp-adjust-find', [(FP, """			uint32_t index = 0u;

			while ( result[index] == '/' )
			{
				++index;
			}

			return result.substr( index );
""", """			return result.substr( result.find_first_not_of( '/' ) );
""")]),
('fp-dep-early', [(FP, """		auto & passCache = cache.try_emplace( this ).first->second;
		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, view ), false );

		if ( res )
		{
			auto it = std::find_if( passDepends.begin()
				, passDepends.end()
				, [&pass, &view, &cache]( FramePass const * lookup )
				{
					bool result = false;

					if ( fpass::isInOutputs( *lookup, view ) )
					{
						result = ( pass.id == lookup->id );
					}
					else if ( !fpass::isInInputs( *lookup, view ) )
					{
						result = lookup->dependsOn( pass, view, cache );
					}

					return result;
				} );
			rit->second = it != passDepends.end();
		}

		return rit->second;
""", """		auto & passCache = cache[this];
		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, view ), false );

		if ( !res )
		{
			return rit->second;
		}

		rit->second = std::any_of( passDepends.begin()
			, passDepends.end()
			, [&pass, &view, &cache]( FramePass const * lookup )
			{
				if ( fpass::isInOutputs( *lookup, view ) )
				{
					return pass.id == lookup->id;
				}

				return !fpass::isInInputs( *lookup, view )
					&& lookup->dependsOn( pass, view, cache );
			} );
		return rit->second;
""")]),
('fp-dep-any', [(FP, """		auto it = std::find_if( passDepends.begin()
			, passDepends.end()
			, [&pass]( FramePass const * lookup )
			{
				return pass.id == lookup->id;
			} );
		return it != passDepends.end();
""", """		for ( auto depend : passDepends )
		{
			if ( depend->id == pass.id )
			{
				return true;
			}
		}

		return false;
""")]),
('fp-implicit-emplace', [(FP, """		buffers.push_back( Attachment{ Attachment::FlagKind( Attachment::Flag::Input )
			, *this
			, InvalidBindingId
			, std::move( attachName )
			, BufferAttachment::FlagKind( BufferAttachment::Flag::Transition )
			, std::move( buffer )
			, offset
			, range
			, std::move( wantedAccess ) } );
""", """		Attachment attach{ Attachment::FlagKind( Attachment::Flag::Input )
			, *this
			, InvalidBindingId
			, attachName
			, BufferAttachment::FlagKind( BufferAttachment::Flag::Transition )
			, buffer
			, offset
			, range
			, wantedAccess };
		buffers.emplace_back( std::move( attach ) );
""")]),
('fp-uniform-name', [(FP, """		auto attachName = fpass::adjustName( *this, buffer.name ) + "/UB";
		buffers.push_back( Attachment{ Attachment::FlagKind( Attachment::Flag::Input )
			, *this
			, binding
			, std::move( attachName )
			, BufferAttachment::FlagKind( BufferAttachment::Flag::Uniform )
""", """		buffers.push_back( Attachment{ Attachment::FlagKind( Attachment::Flag::Input )
			, *this
			, binding
			, fpass::adjustName( *this, buffer.name ) + "/UB"
			, BufferAttachment::FlagKind( BufferAttachment::Flag::Uniform )
""")]),
('fp-merge-locals', [(FP, """				data.info.components = view.data->info.components;
				data.info.flags = view.data->info.flags;
				data.info.format = view.data->info.format;
				data.info.viewType = view.data->info.viewType;
				data.info.subresourceRange = view.data->info.subresourceRange;
""", """				auto & info = view.data->info;
				data.info.viewType = info.viewType;
				data.info.format = info.format;
				data.info.flags = info.flags;
				data.info.subresourceRange = info.subresourceRange;
				data.info.components = info.components;
""")]),
('fp-merge-hoist', [(FP, """				if ( mergeArrayLayers )
				{
					auto maxLayer = std::max( data.info.subresourceRange.layerCount + data.info.subresourceRange.baseArrayLayer
						, view.data->info.subresourceRange.layerCount + view.data->info.subresourceRange.baseArrayLayer );
					data.info.subresourceRange.baseArrayLayer = std::min( view.data->info.subresourceRange.baseArrayLayer
						, data.info.subresourceRange.baseArrayLayer );
					data.info.subresourceRange.layerCount = maxLayer - data.info.subresourceRange.baseArrayLayer;
				}
				else
				{
					data.info.subresourceRange.baseArrayLayer = std::min( view.data->info.subresourceRange.baseArrayLayer
						, data.info.subresourceRange.baseArrayLayer );
					data.info.subresourceRange.layerCount = 1u;
				}
""", """				auto & mine = data.info.subresourceRange;
				auto const & theirs = view.data->info.subresourceRange;
				auto maxLayer = std::max( mine.layerCount + mine.baseArrayLayer
					, theirs.layerCount + theirs.baseArrayLayer );
				mine.baseArrayLayer = std::min( theirs.baseArrayLayer, mine.baseArrayLayer );
				mine.layerCount = mergeArrayLayers
					? maxLayer - mine.baseArrayLayer
					: 1u;
""")]),
('fp-merge-type', [(FP, """					if ( data.info.subresourceRange.layerCount > 6u )
					{
						data.info.viewType = VK_IMAGE_VIEW_TYPE_CUBE_ARRAY;
					}
					else
					{
						data.info.viewType = VK_IMAGE_VIEW_TYPE_CUBE;
					}
""", """					data.info.viewType = data.info.subresourceRange.layerCount <= 6u
						? VK_IMAGE_VIEW_TYPE_CUBE
						: VK_IMAGE_VIEW_TYPE_CUBE_ARRAY;
""")]),
('fp-merge-if', [(FP, """			case VK_IMAGE_VIEW_TYPE_CUBE:
				if ( data.info.subresourceRange.layerCount > 6u )
				{
					data.info.viewType = VK_IMAGE_VIEW_TYPE_CUBE_ARRAY;
				}
				break;
			default:
				break;
			}
		}

		return graph.createView( data );
""", """			default:
				if ( data.info.viewType == VK_IMAGE_VIEW_TYPE_CUBE
					&& data.info.subresourceRange.layerCount > 6u )
				{
					data.info.viewType = VK_IMAGE_VIEW_TYPE_CUBE_ARRAY;
				}
				break;
			}
		}

		return graph.createView( data );
""")]),
('fp-full', [(FP, """		return group.getFullName() + "/" + getName();
""", """		return group.getFullName() + "/" + m_name;
""")]),
('at-clear-equal', [(AT, """		return std::memcmp( &lhs, &rhs, sizeof( VkClearValue ) ) == 0;
""", """		return !std::memcmp( &rhs, &lhs, sizeof( rhs ) );
""")]),
('at-write-info', [(AT, """		if ( isView() )
		{
			result.bufferViewInfo.push_back( VkDescriptorBufferInfo{ buffer.buffer( index ), range.offset, range.size } );
			result.texelBufferView.push_back( view );
		}
		else
		{
			result.bufferInfo.push_back( VkDescriptorBufferInfo{ buffer.buffer( index ), range.offset, range.size } );
		}

		return result;
""", """		VkDescriptorBufferInfo const info{ buffer.buffer( index ), range.offset, range.size };

		if ( !isView() )
		{
			result.bufferInfo.push_back( info );
			return result;
		}

		result.bufferViewInfo.push_back( info );
		result.texelBufferView.push_back( view );
		return result;
""")]),
('at-desc-tern', [(AT, """		if ( isUniform() )
		{
			return VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
		}

		return VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
""", """		return isUniform()
			? VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER
			: VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
""")]),
('at-access-return', [(AT, """		if ( isTransition() )
		{
			result = wantedAccess.access;
		}
		else if ( isStorage() )
		{
			if ( isInput )
""", """		if ( isTransition() )
		{
			return wantedAccess.access;
		}

		if ( isStorage() )
		{
			if ( isInput )
""")]),
('at-access-tern', [(AT, """			if ( isInput )
			{
				result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
			}

			if ( isOutput )
			{
				result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
			}
""", """			result = VkAccessFlags( ( isInput ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT : 0 )
				| ( isOutput ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT : 0 ) );
""")]),
('at-stage-tern', [(AT, """		if ( isSampledView() )
		{
			if ( isCompute )
			{
				result |= VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
			}
			else
			{
				result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
			}
		}
		else if ( isTransitionView() )
		{
			result |= getStageMask( wantedLayout );
		}
		else if ( isStorageView() )
		{
			if ( isCompute )
			{
				result |= VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
			}
			else
			{
				result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
			}
		}
""", """		VkPipelineStageFlags const shaderStage = isCompute
			? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT
			: VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;

		if ( isSampledView() )
		{
			result = shaderStage;
		}
		else if ( isTransitionView() )
		{
			result = getStageMask( wantedLayout );
		}
		else if ( isStorageView() )
		{
			result = shaderStage;
		}
""")]),
('at-layout-returns', [(AT, """		if ( isSampledView() )
		{
			result = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		}
		else if ( isTransitionView() )
		{
			result = wantedLayout;
		}
		else if ( isStorageView() )
		{
			result = VK_IMAGE_LAYOUT_GENERAL;
		}
		else if ( isTransferView() )
""", """		if ( isSampledView() )
		{
			return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		}

		if ( isTransitionView() )
		{
			return wantedLayout;
		}

		if ( isStorageView() )
		{
			return VK_IMAGE_LAYOUT_GENERAL;
		}

		if ( isTransferView() )
""")]),
('at-view-index', [(AT, """		return views.size() == 1u
			? views.front()
			: views[index];
""", """		if ( views.size() != 1u )
		{
			return views[index];
		}

		return views[0];
""")]),
('at-view-min', [(AT, """		return views.size() == 1u
			? views.front()
			: views[index];
""", """		return views[views.size() == 1u ? 0u : index];
""")]),
('at-flags-helper', [(AT, """			| ( loadOp == VK_ATTACHMENT_LOAD_OP_LOAD
				? FlagKind( Flag::Input )
				: FlagKind( Flag::None ) )
			| ( storeOp == VK_ATTACHMENT_STORE_OP_STORE
				? FlagKind( Flag::Output )
				: FlagKind( Flag::None ) )
			| ( stencilLoadOp == VK_ATTACHMENT_LOAD_OP_LOAD
				? FlagKind( Flag::Input )
				: FlagKind( Flag::None ) )
			| ( stencilStoreOp == VK_ATTACHMENT_STORE_OP_STORE
				? FlagKind( Flag::Output )
				: FlagKind( Flag::None ) ) ) }
""", """			| ( ( loadOp == VK_ATTACHMENT_LOAD_OP_LOAD || stencilLoadOp == VK_ATTACHMENT_LOAD_OP_LOAD )
				? FlagKind( Flag::Input )
				: FlagKind( Flag::None ) )
			| ( ( storeOp == VK_ATTACHMENT_STORE_OP_STORE || stencilStoreOp == VK_ATTACHMENT_STORE_OP_STORE )
				? FlagKind( Flag::Output )
				: FlagKind( Flag::None ) ) ) }
""")]),
('at-origin', [(AT, """		imageAttach.views = { std::move( view ) };
""", """		imageAttach.views.clear();
		imageAttach.views.push_back( view );
""")]),
('at-origin2', [(AT, """		imageAttach.views = { std::move( view ) };
""", """		imageAttach.views.assign( 1u, view );
""")]),
('at-buffer-if', [(AT, """		return isBuffer()
			? bufferAttach.buffer.buffer( index )
			: VkBuffer{};
""", """		if ( !isBuffer() )
		{
			return VkBuffer{};
		}

		return bufferAttach.buffer.buffer( index );
""")]),
('at-eq-order', [(AT, """		return lhs.pass == rhs.pass
			&& lhs.flags == rhs.flags
			&& lhs.imageAttach == rhs.imageAttach
			&& lhs.bufferAttach == rhs.bufferAttach;
""", """		return lhs.flags == rhs.flags
			&& lhs.pass == rhs.pass
			&& lhs.bufferAttach == rhs.bufferAttach
			&& lhs.imageAttach == rhs.imageAttach;
""")]),
('rh-destroy-early', [(RH, """		if ( it != m_images.end() )
		{
			if ( context.vkFreeMemory && it->second.second )
			{
				context.vkFreeMemory( context.device, it->second.second, context.allocator );
			}

			if ( context.vkDestroyImage && it->second.first )
			{
				context.vkDestroyImage( context.device, it->second.first, context.allocator );
			}

			m_images.erase( it );
		}
""", """		if ( it == m_images.end() )
		{
			return;
		}

		auto const [image, memory] = it->second;
		m_images.erase( it );

		if ( context.vkFreeMemory && memory )
		{
			context.vkFreeMemory( context.device, memory, context.allocator );
		}

		if ( context.vkDestroyImage && image )
		{
			context.vkDestroyImage( context.device, image, context.allocator );
		}
""")]),
('rh-guard', [(RH, """		lock_type lock( m_imagesMutex );
		auto data = std::make_unique< ImageData >( img );
		ImageId result{ uint32_t( m_imageIds.size() + 1u ), data.get() };
		m_imageIds.try_emplace( result, std::move( data ) );
		return result;
""", """		auto data = std::make_unique< ImageData >( img );
		std::lock_guard< std::mutex > guard( m_imagesMutex );
		auto const id = uint32_t( m_imageIds.size() ) + 1u;
		ImageId result{ id, data.get() };
		m_imageIds.emplace( result, std::move( data ) );
		return result;
""")]),
('rh-viewid-early', [(RH, """		ImageViewId result{};

		if ( it == m_imageViewIds.end() )
		{
			auto data = std::make_unique< ImageViewData >( view );
			result = ImageViewId{ uint32_t( m_imageViewIds.size() + 1u ), data.get() };
			m_imageViewIds.try_emplace( result, std::move( data ) );
		}
		else
		{
			result = it->first;
		}

		return result;
""", """		if ( it != m_imageViewIds.end() )
		{
			return it->first;
		}

		auto data = std::make_unique< ImageViewData >( view );
		ImageViewId result{ uint32_t( m_imageViewIds.size() + 1u ), data.get() };
		m_imageViewIds.try_emplace( result, std::move( data ) );
		return result;
""")]),
('rh-viewid-loop', [(RH, """		auto it = std::find_if( m_imageViewIds.begin()
			, m_imageViewIds.end()
			, [&view]( ImageViewIdDataOwnerCont::value_type const & lookup )
			{
				return *lookup.second == view;
			} );
		ImageViewId result{};

		if ( it == m_imageViewIds.end() )
		{
			auto data = std::make_unique< ImageViewData >( view );
			result = ImageViewId{ uint32_t( m_imageViewIds.size() + 1u ), data.get() };
			m_imageViewIds.try_emplace( result, std::move( data ) );
		}
		else
		{
			result = it->first;
		}

		return result;
""", """		for ( auto & [id, owned] : m_imageViewIds )
		{
			if ( *owned == view )
			{
				return id;
			}
		}

		auto data = std::make_unique< ImageViewData >( view );
		ImageViewId result{ uint32_t( m_imageViewIds.size() + 1u ), data.get() };
		m_imageViewIds.try_emplace( result, std::move( data ) );
		return result;
""")]),
('rh-image-early', [(RH, """		ResourceHandler::CreatedT< VkImage > result{};

		if ( context.vkCreateImage )
		{
			bool created{};
			lock_type lock( m_imagesMutex );
			auto it = m_images.find( imageId );

			if ( it == m_images.end() )
			{
""", """		ResourceHandler::CreatedT< VkImage > result{};

		if ( !context.vkCreateImage )
		{
			return result;
		}

		{
			bool created = false;
			lock_type lock( m_imagesMutex );
			auto it = m_images.find( imageId );

			if ( m_images.end() == it )
			{
""")]),
('rh-image-info', [(RH, """				auto createInfo = reshdl::convert( *imageId.data );
				auto res = context.vkCreateImage( context.device
					, &createInfo
""", """				auto res = context.vkCreateImage( context.device
					, &imageId.data->info
""")]),
('rh-image-after', [(RH, """				it = m_images.try_emplace( imageId, image, memory ).first;
			}

			result = { it->second.first, created };
""", """				it = m_images.emplace( imageId, std::make_pair( image, memory ) ).first;
			}

			result.first = it->second.first;
			result.second = created;
""")]),
('rh-convert', [(RH, """			auto result = data.info;
			result.image = image;
			return result;
""", """			VkImageViewCreateInfo result{ data.info };
			result.image = image;
			return result;
""")]),
('rh-memory-direct', [(RH, """				VkDeviceMemory memory{};
				auto res = context.vkAllocateMemory( context.device
					, &allocateInfo
					, context.allocator
					, &memory );
				checkVkResult( res, "Image memory allocation" );
				result = memory;
				crgRegisterObjectName( context, name, memory );

				// Bind image and memory
				res = context.vkBindImageMemory( context.device
					, image
					, memory
					, 0u );
				checkVkResult( res, "Image memory binding" );
""", """				VkDeviceMemory allocated{};
				checkVkResult( context.vkAllocateMemory( context.device
						, &allocateInfo
						, context.allocator
						, &allocated )
					, "Image memory allocation" );
				result = allocated;
				crgRegisterObjectName( context, name, result );
				checkVkResult( context.vkBindImageMemory( context.device
						, image
						, result
						, 0u )
					, "Image memory binding" );
""")]),
('rh-view-locals', [(RH, """				it = m_imageViews.try_emplace( view, imageView ).first;
				crgRegisterObjectName( context, view.data->name, it->second );
				created = true;
""", """				created = true;
				crgRegisterObjectName( context, view.data->name, imageView );
				it = m_imageViews.emplace( view, imageView ).first;
""")]),
('rh-sampler-fields', [(RH, """			VkSamplerCreateInfo createInfo{ VK_STRUCTURE_TYPE_SAMPLER_CREATE_INFO
				, nullptr
				, 0u
				, samplerDesc.magFilter
				, samplerDesc.minFilter
				, samplerDesc.mipmapMode
				, samplerDesc.addressModeU
				, samplerDesc.addressModeV
				, samplerDesc.addressModeW
				, samplerDesc.mipLodBias // mipLodBias
				, VK_FALSE // anisotropyEnable
				, 0.0f // maxAnisotropy
				, VK_FALSE // compareEnable
				, VK_COMPARE_OP_ALWAYS // compareOp
				, samplerDesc.minLod
				, samplerDesc.maxLod
				, VK_BORDER_COLOR_FLOAT_TRANSPARENT_BLACK
				, VK_FALSE };
""", """			VkSamplerCreateInfo createInfo{};
			createInfo.sType = VK_STRUCTURE_TYPE_SAMPLER_CREATE_INFO;
			createInfo.magFilter = samplerDesc.magFilter;
			createInfo.minFilter = samplerDesc.minFilter;
			createInfo.mipmapMode = samplerDesc.mipmapMode;
			createInfo.addressModeU = samplerDesc.addressModeU;
			createInfo.addressModeV = samplerDesc.addressModeV;
			createInfo.addressModeW = samplerDesc.addressModeW;
			createInfo.mipLodBias = samplerDesc.mipLodBias;
			createInfo.anisotropyEnable = VK_FALSE;
			createInfo.compareEnable = VK_FALSE;
			createInfo.compareOp = VK_COMPARE_OP_ALWAYS;
			createInfo.minLod = samplerDesc.minLod;
			createInfo.maxLod = samplerDesc.maxLod;
			createInfo.borderColor = VK_BORDER_COLOR_FLOAT_TRANSPARENT_BLACK;
			createInfo.unnormalizedCoordinates = VK_FALSE;
""")]),
('rh-sampler-entry', [(RH, """			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
			sampler.name = "Sampler_" + suffix;
			crgRegisterObject( context, sampler.name, result );
""", """			auto samplerName = "Sampler_" + suffix;
			auto [it, _] = m_samplers.try_emplace( result, Sampler{ result, {} } );
			it->second.name = samplerName;
			crgRegisterObject( context, samplerName, result );
""")]),
('rh-quad-attrs', [(RH, """					vertexBuffer->vertexBindings.push_back( { 0u, sizeof( reshdl::Quad::Vertex ), VK_VERTEX_INPUT_RATE_VERTEX } );
					vertexBuffer->inputState""", """					VkVertexInputBindingDescription binding{};
					binding.stride = sizeof( reshdl::Quad::Vertex );
					binding.inputRate = VK_VERTEX_INPUT_RATE_VERTEX;
					vertexBuffer->vertexBindings.push_back( binding );
					vertexBuffer->inputState""")]),
('rh-quad-coords', [(RH, """						auto realMinU = float( config.invertU ? 1.0 - minU : minU );
						auto realMaxU = float( config.invertU ? 1.0 - maxU : maxU );
""", """						auto realMinU = float( minU );
						auto realMaxU = float( maxU );

						if ( config.invertU )
						{
							realMinU = float( 1.0 - minU );
							realMaxU = float( 1.0 - maxU );
						}

""")]),
('rh-quad-move', [(RH, """			auto result = std::make_unique< VertexBuffer >();
			vertexBuffer = result.get();
			VkBufferCreateInfo""", """			VertexBufferPtr result{ std::make_unique< VertexBuffer >() };
			vertexBuffer = &*result;
			VkBufferCreateInfo"""), (RH, """			m_vertexBuffers.emplace( std::move( result ) );
""", """			m_vertexBuffers.insert( std::move( result ) );
""")]),
('rh-dbuf-local', [(RH, """			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
			{
				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
				context.vkDestroyBuffer( context.device
					, vertexBuffer.buffer.buffer()
					, context.allocator );
			}
""", """			if ( auto buffer = vertexBuffer.buffer.buffer(); buffer && context.vkDestroyBuffer )
			{
				crgUnregisterObject( context, buffer );
				context.vkDestroyBuffer( context.device, buffer, context.allocator );
			}
""")]),
('rh-dvb-loop', [(RH, """		auto it = std::find_if( m_vertexBuffers.begin()
			, m_vertexBuffers.end()
			, [buffer]( VertexBufferPtr const & lookup )
			{
				return lookup.get() == buffer;
			} );

		if ( it != m_vertexBuffers.end() )
		{
			reshdl::destroyBuffer( context, **it );
			m_vertexBuffers.erase( it );
		}
""", """		auto it = m_vertexBuffers.begin();

		while ( it != m_vertexBuffers.end() && it->get() != buffer )
		{
			++it;
		}

		if ( it != m_vertexBuffers.end() )
		{
			reshdl::destroyBuffer( context, **it );
			m_vertexBuffers.erase( it );
		}
""")]),
('rh-cache-image', [(RH, """		auto [result, created] = m_handler.createImage( m_context, image );

		if ( created )
		{
			m_images[image] = result;
		}

		return result;
""", """		auto const created = m_handler.createImage( m_context, image );

		if ( created.second )
		{
			m_images.insert_or_assign( image, created.first );
		}

		return created.first;
""")]),
('rh-cache-destroy', [(RH, """		auto it = m_images.find( imageId );
		auto result = it != m_images.end();

		if ( result )
		{
			m_handler.destroyImage( m_context, imageId );
			m_images.erase( it );
		}

		return result;
""", """		auto it = m_images.find( imageId );

		if ( it == m_images.end() )
		{
			return false;
		}

		m_images.erase( it );
		m_handler.destroyImage( m_context, imageId );
		return true;
""")]),
('rh-cache-sampler', [(RH, """		auto it = m_samplers.find( hash );

		if ( it == m_samplers.end() )
		{
			it = m_samplers.try_emplace( hash, m_handler.createSampler( m_context
				, std::to_string( hash )
				, samplerDesc ) ).first;
		}

		return it->second;
""", """		if ( auto it = m_samplers.find( hash ); it != m_samplers.end() )
		{
			return it->second;
		}

		auto sampler = m_handler.createSampler( m_context
			, std::to_string( hash )
			, samplerDesc );
		m_samplers.emplace( hash, sampler );
		return sampler;
""")]),
('rh-cache-ctx', [(RH, """		auto it = m_caches.find( &context );

		if ( it == m_caches.end() )
		{
			it = m_caches.try_emplace( &context, m_handler, context ).first;
		}

		return it->second;
""", """		return m_caches.try_emplace( &context, m_handler, context ).first->second;
""")]),
('rh-caches-any', [(RH, """		auto it = std::find_if( m_caches.begin()
			, m_caches.end()
			, [&imageId]( ContextCacheMap::value_type & lookup )
			{
				return lookup.second.destroyImage( imageId );
			} );
		return it != m_caches.end();
""", """		for ( auto & [context, cache] : m_caches )
		{
			if ( cache.destroyImage( imageId ) )
			{
				return true;
			}
		}

		return false;
""")]),
('rh-caches-any2', [(RH, """		auto it = std::find_if( m_caches.begin()
			, m_caches.end()
			, [&viewId]( ContextCacheMap::value_type & lookup )
			{
				return lookup.second.destroyImageView( viewId );
			} );
		return it != m_caches.end();
""", """		return std::any_of( m_caches.begin()
			, m_caches.end()
			, [&viewId]( ContextCacheMap::value_type & lookup )
			{
				return lookup.second.destroyImageView( viewId );
			} );
""")]),
('rh-caches-direct', [(RH, """		auto & cache = getContextCache( context );
		return cache.createSampler( samplerDesc );
""", """		return getContextCache( context ).createSampler( samplerDesc );
""")]),
('rh-dtor-loops', [(RH, """		for ( auto const & [image, _] : m_images )
		{
			m_handler.destroyImage( m_context, image );
		}

		for ( auto const & [_, sampler] : m_samplers )
		{
			m_handler.destroySampler( m_context, sampler );
		}
""", """		for ( auto const & entry : m_samplers )
		{
			m_handler.destroySampler( m_context, entry.second );
		}

		for ( auto it = m_images.begin(); it != m_images.end(); ++it )
		{
			m_handler.destroyImage( m_context, it->first );
		}
""")]),
('rh-hash', [(RH, """			size_t result{ ( ( texCoords ? 0x01u : 0x00u ) << 0u )
				| ( ( config.invertU ? 0x01u : 0x00u ) << 1u )
				| ( ( config.invertV ? 0x01u : 0x00u ) << 2u ) };
			return result;
""", """			size_t result{};

			if ( texCoords )
			{
				result |= 0x01u;
			}

			if ( config.invertU )
			{
				result |= 0x02u;
			}

			if ( config.invertV )
			{
				result |= 0x04u;
			}

			return result;
""")]),
('gc-deduce-shift', [(GC, """			if ( ( typeBits & 1 ) == 1
				&& ( memoryProperties.memoryTypes[i].propertyFlags & requirements ) == requirements )
			{
				return i;
			}

			typeBits >>= 1;
""", """			bool const usable = ( typeBits & ( 1u << i ) ) != 0u;

			if ( usable
				&& ( memoryProperties.memoryTypes[i].propertyFlags & requirements ) == requirements )
			{
				return i;
			}
""")]),
('gc-deduce-continue', [(GC, """			if ( ( typeBits & 1 ) == 1
				&& ( memoryProperties.memoryTypes[i].propertyFlags & requirements ) == requirements )
			{
				return i;
			}

			typeBits >>= 1;
""", """			bool const allowed = ( typeBits & 1u ) != 0u;
			typeBits >>= 1;

			if ( !allowed )
			{
				continue;
			}

			auto const flags = memoryProperties.memoryTypes[i].propertyFlags;

			if ( ( flags & requirements ) == requirements )
			{
				return i;
			}
""")]),
('gc-check-early', [(GC, """		if ( result != VK_SUCCESS )
		{
			Logger::logError( stepName );
			CRG_Exception( stepName );
		}
""", """		if ( result == VK_SUCCESS )
		{
			return;
		}

		Logger::logError( stepName );
		CRG_Exception( stepName );
""")]),
('gc-register-alloc', [(GC, """		lock_type lock{ m_mutex };
		m_allocated.insert_or_assign( object
			, ObjectAllocation{
				typeName,
				objectName,
				callStack.str() } );
""", """		ObjectAllocation allocation{ typeName, objectName, callStack.str() };
		std::lock_guard< std::mutex > lock{ m_mutex };
		m_allocated[object] = std::move( allocation );
""")]),
('gc-unregister-early', [(GC, """				Logger::logTrace( stream.str() );
				m_allocated.erase( it );
			}
			else
			{
				std::stringstream stream;
""", """				m_allocated.erase( it );
				Logger::logTrace( stream.str() );
			}
			else
			{
				std::stringstream stream;
""")]),
('gc-unregister-id', [(GC, """		if ( object )
		{
			lock_type lock{ m_mutex };
			auto it = m_allocated.find( size_t( object ) );

			if ( it != m_allocated.end() )
			{
				std::stringstream stream;
				stream.imbue( std::locale{ "C" } );
				stream << "Destroyed " << it->second.type
""", """		if ( object == 0u )
		{
			return;
		}

		{
			lock_type lock{ m_mutex };
			auto it = m_allocated.find( object );

			if ( it != m_allocated.end() )
			{
				std::stringstream stream;
				stream.imbue( std::locale{ "C" } );
				stream << "Destroyed " << it->second.type
""")]),
('gc-label-early', [(GC, """		if ( vkCmdBeginDebugUtilsLabelEXT )
		{
			vkCmdBeginDebugUtilsLabelEXT( commandBuffer, &labelInfo );
		}
""", """		if ( vkCmdBeginDebugUtilsLabelEXT == nullptr )
		{
			return;
		}

		vkCmdBeginDebugUtilsLabelEXT( commandBuffer, &labelInfo );
""")]),
('gc-label-local', [(GC, """		doBeginDebugUtilsLabel( commandBuffer
			, { VK_STRUCTURE_TYPE_DEBUG_UTILS_LABEL_EXT
				, nullptr
				, labelInfo.markerName.c_str()
				, { labelInfo.colour[0]
					, labelInfo.colour[1]
					, labelInfo.colour[2]
					, labelInfo.colour[3] } } );
""", """		VkDebugUtilsLabelEXT label{};
		label.sType = VK_STRUCTURE_TYPE_DEBUG_UTILS_LABEL_EXT;
		label.pLabelName = labelInfo.markerName.c_str();
		std::copy( labelInfo.colour.begin(), labelInfo.colour.end(), label.color );
		doBeginDebugUtilsLabel( commandBuffer, label );
""")]),
]
