R = 'source/RenderGraph/RunnablePasses/'
PH, RP, RQ, RM = R + 'PipelineHolder.cpp', R + 'RenderPassHolder.cpp', R + 'RenderQuadHolder.cpp', R + 'RenderMeshHolder.cpp'
IC, CP, GM, RS, BI, IB = R + 'ImageCopy.cpp', R + 'ComputePass.cpp', R + 'GenerateMipmaps.cpp', R + 'RenderPass.cpp', R + 'BufferToImageCopy.cpp', R + 'ImageBlit.cpp'
E = [
('ph-ctor-count', [(PH, """		if ( m_baseConfig.m_programCreator.create )
		{
			m_pipelines.resize( m_baseConfig.m_programCreator.maxCount, VkPipeline{} );
			m_baseConfig.m_programs.resize( m_baseConfig.m_programCreator.maxCount );
		}
		else
		{
			m_pipelines.resize( m_baseConfig.m_programs.size(), VkPipeline{} );
		}
""", """		if ( m_baseConfig.m_programCreator.create )
		{
			m_baseConfig.m_programs.resize( m_baseConfig.m_programCreator.maxCount );
		}

		m_pipelines.resize( m_baseConfig.m_programs.size(), VkPipeline{} );
""")]),
('ph-init-early', [(PH, """		if ( !m_pipelineLayout )
		{
			doFillDescriptorBindings();
			doCreateDescriptorSetLayout();
			doCreatePipelineLayout();
			doCreateDescriptorPool();
		}
""", """		if ( m_pipelineLayout )
		{
			return;
		}

		doFillDescriptorBindings();
		doCreateDescriptorSetLayout();
		doCreateDescriptorPool();
		doCreatePipelineLayout();
""")]),
('ph-cleanup-index', [(PH, """		for ( auto & pipeline : m_pipelines )
		{
			if ( pipeline != VkPipeline{} )
			{
				crgUnregisterObject( m_context, pipeline );
				m_context.vkDestroyPipeline( m_context.device
					, pipeline
					, m_context.allocator );
				pipeline = {};
			}
		}
""", """		for ( size_t i = 0u; i < m_pipelines.size(); ++i )
		{
			if ( !m_pipelines[i] )
			{
				continue;
			}

			crgUnregisterObject( m_context, m_pipelines[i] );
			m_context.vkDestroyPipeline( m_context.device
				, m_pipelines[i]
				, m_context.allocator );
			m_pipelines[i] = VkPipeline{};
		}
""")]),
('ph-cleanup-order', [(PH, """		m_descriptorBindings.clear();

		for ( auto & descriptorSet : m_descriptorSets )
		{
			if ( descriptorSet.set )
			{
				crgUnregisterObject( m_context, descriptorSet.set );
				descriptorSet.writes.clear();
				descriptorSet.set = {};
			}
		}
""", """		for ( auto it = m_descriptorSets.begin(); it != m_descriptorSets.end(); ++it )
		{
			if ( it->set != VkDescriptorSet{} )
			{
				crgUnregisterObject( m_context, it->set );
				it->set = VkDescriptorSet{};
				it->writes.clear();
			}
		}

		m_descriptorBindings.clear();
""")]),
('ph-cleanup-helper', [(PH, """		if ( m_pipelineLayout )
		{
			crgUnregisterObject( m_context, m_pipelineLayout );
			m_context.vkDestroyPipelineLayout( m_context.device
				, m_pipelineLayout
				, m_context.allocator );
			m_pipelineLayout = {};
		}
""", """		pipHolder::destroyLayout( m_context, m_pipelineLayout );
"""), (PH, """	PipelineHolder::PipelineHolder(""", """	namespace pipHolder
	{
		static void destroyLayout( GraphContext & context
			, VkPipelineLayout & layout )noexcept
		{
			if ( auto old = std::exchange( layout, VkPipelineLayout{} ) )
			{
				crgUnregisterObject( context, old );
				context.vkDestroyPipelineLayout( context.device
					, old
					, context.allocator );
			}
		}
	}

	PipelineHolder::PipelineHolder("""), (PH, "#include <cassert>", "#include <cassert>\n#include <utility>")]),
('ph-getprogram', [(PH, """		if ( m_baseConfig.m_programs.size() == 1u )
		{
			return m_baseConfig.m_programs[0];
		}

		assert( m_baseConfig.m_programs.size() > index );
		return m_baseConfig.m_programs[index];
""", """		auto & programs = m_baseConfig.m_programs;
		auto const programIndex = ( programs.size() == 1u ) ? 0u : index;
		assert( programs.size() > programIndex );
		return programs[programIndex];
""")]),
('ph-getpipeline', [(PH, """		if ( m_baseConfig.m_programs.size() == 1u )
		{
			assert( m_pipelines.size() == 1u );
			return m_pipelines[0];
		}

		assert( m_pipelines.size() > index );
		return m_pipelines[index];
""", """		auto const pipelineIndex = ( m_baseConfig.m_programs.size() == 1u
			? 0u
			: index );
		assert( m_pipelines.size() > pipelineIndex );
		return m_pipelines[pipelineIndex];
""")]),
('ph-create-early', [(PH, """		if ( m_context.vkCreateGraphicsPipelines )
		{
			auto & pipeline = getPipeline( index );
			auto res = m_context.vkCreateGraphicsPipelines( m_context.device
				, m_context.cache
				, 1u
				, &createInfo
				, m_context.allocator
				, &pipeline );
			crg::checkVkResult( res, name + " - Pipeline creation" );
			crgRegisterObject( m_context, name, pipeline );
		}
""", """		if ( !m_context.vkCreateGraphicsPipelines )
		{
			return;
		}

		VkPipeline * pipeline = &getPipeline( index );
		crg::checkVkResult( m_context.vkCreateGraphicsPipelines( m_context.device
				, m_context.cache
				, 1u
				, &createInfo
				, m_context.allocator
				, pipeline )
			, name + " - Pipeline creation" );
		crgRegisterObject( m_context, name, *pipeline );
""")]),
('ph-record', [(PH, """		createDescriptorSet( index );
		auto & pipeline = getPipeline( index );
		context->vkCmdBindPipeline( commandBuffer, m_bindingPoint, pipeline );
		context->vkCmdBindDescriptorSets( commandBuffer, m_bindingPoint, m_pipelineLayout, 0u, 1u, &m_descriptorSets[index].set, 0u, nullptr );
""", """		createDescriptorSet( index );
		auto const & descriptorSet = m_descriptorSets[index].set;
		context->vkCmdBindDescriptorSets( commandBuffer, m_bindingPoint, m_pipelineLayout, 0u, 1u, &descriptorSet, 0u, nullptr );
		context->vkCmdBindPipeline( commandBuffer, m_bindingPoint, getPipeline( index ) );
""")]),
('ph-reset', [(PH, """		assert( m_pipelines.size() == 1u || index < m_pipelines.size() );

		if ( m_pipelines.size() == 1u )
		{
			index = 0u;
		}

		if ( m_pipelines[index] )
		{
			auto pipeline = m_pipelines[index];
			m_context""", """		auto const slot = m_pipelines.size() == 1u ? 0u : index;
		assert( slot < m_pipelines.size() );
		auto & current = m_pipelines[slot];
		index = slot;

		if ( current != VkPipeline{} )
		{
			VkPipeline pipeline{};
			std::swap( pipeline, current );
			m_context"""), (PH, """				} );
			m_pipelines[index] = {};
		}
""", """				} );
		}
""")]),
('ph-descr-early', [(PH, """			if ( attach.isSampledView() )
			{
				descriptorSet.writes.emplace_back( attach.binding
					, 0u
					, VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER
					, VkDescriptorImageInfo{ m_graph.createSampler( attach.getSamplerDesc() )
						, m_graph.createImageView( attach.view( index ) )
						, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL } );
			}
			else if ( attach.isStorageView() )
			{
				descriptorSet.writes.emplace_back( attach.binding
					, 0u
					, VK_DESCRIPTOR_TYPE_STORAGE_IMAGE
					, VkDescriptorImageInfo{ VkSampler{}
						, m_graph.createImageView( attach.view( index ) )
						, VK_IMAGE_LAYOUT_GENERAL } );
			}
""", """			if ( !attach.isSampledView() && !attach.isStorageView() )
			{
				continue;
			}

			auto const sampled = attach.isSampledView();
			VkSampler sampler{};

			if ( sampled )
			{
				sampler = m_graph.createSampler( attach.getSamplerDesc() );
			}

			VkDescriptorImageInfo info{ sampler
				, m_graph.createImageView( attach.view( index ) )
				, sampled ? VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_GENERAL };
			descriptorSet.writes.emplace_back( attach.binding
				, 0u
				, sampled ? VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER : VK_DESCRIPTOR_TYPE_STORAGE_IMAGE
				, info );
""")]),
('ph-descr-helper', [(PH, """		VkDescriptorSetAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_DESCRIPTOR_SET_ALLOCATE_INFO
			, nullptr
			, m_descriptorSetPool
			, 1u
			, &m_descriptorSetLayout };
		auto res = m_context.vkAllocateDescriptorSets( m_context.device
			, &allocateInfo
			, &descriptorSet.set );
		checkVkResult( res, m_pass.getGroupName() + " - DescriptorSet allocation" );
		crgRegisterObject( m_context, m_pass.getGroupName(), descriptorSet.set );
""", """		VkDescriptorSetAllocateInfo allocateInfo{};
		allocateInfo.sType = VK_STRUCTURE_TYPE_DESCRIPTOR_SET_ALLOCATE_INFO;
		allocateInfo.descriptorPool = m_descriptorSetPool;
		allocateInfo.descriptorSetCount = 1u;
		allocateInfo.pSetLayouts = &m_descriptorSetLayout;
		auto const groupName = m_pass.getGroupName();
		checkVkResult( m_context.vkAllocateDescriptorSets( m_context.device
				, &allocateInfo
				, &descriptorSet.set )
			, groupName + " - DescriptorSet allocation" );
		crgRegisterObject( m_context, groupName, descriptorSet.set );
""")]),
('ph-descr-writes', [(PH, """		for ( auto const & write : descriptorSet.writes )
		{
			write.update( descriptorSet.set );
		}
""", """		std::for_each( descriptorSet.writes.begin()
			, descriptorSet.writes.end()
			, [&descriptorSet]( auto const & write )
			{
				write.update( descriptorSet.set );
			} );
"""), (PH, "#include <cassert>", "#include <algorithm>\n#include <cassert>")]),
('ph-bindings-stage', [(PH, """		m_descriptorBindings.clear();
		auto shaderStage = VkShaderStageFlags( ( VK_PIPELINE_BIND_POINT_COMPUTE == m_bindingPoint )
			? VK_SHADER_STAGE_COMPUTE_BIT
			: ( VK_SHADER_STAGE_VERTEX_BIT
				| VK_SHADER_STAGE_TESSELLATION_CONTROL_BIT
				| VK_SHADER_STAGE_TESSELLATION_EVALUATION_BIT
				| VK_SHADER_STAGE_GEOMETRY_BIT
				| VK_SHADER_STAGE_FRAGMENT_BIT ) );

		for ( auto & attach : m_pass.images )
		{
			if ( attach.isSampledView() || attach.isStorageView() )
			{
				m_descriptorBindings.push_back( { attach.binding
					, attach.getDescriptorType()
					, 1u
					, shaderStage
					, nullptr } );
			}
		}
""", """		VkShaderStageFlags shaderStage{ VK_SHADER_STAGE_COMPUTE_BIT };

		if ( m_bindingPoint != VK_PIPELINE_BIND_POINT_COMPUTE )
		{
			shaderStage = VK_SHADER_STAGE_FRAGMENT_BIT
				| VK_SHADER_STAGE_GEOMETRY_BIT
				| VK_SHADER_STAGE_TESSELLATION_EVALUATION_BIT
				| VK_SHADER_STAGE_TESSELLATION_CONTROL_BIT
				| VK_SHADER_STAGE_VERTEX_BIT;
		}

		m_descriptorBindings.clear();

		for ( auto & attach : m_pass.images )
		{
			if ( !( attach.isStorageView() || attach.isSampledView() ) )
			{
				continue;
			}

			VkDescriptorSetLayoutBinding binding{};
			binding.binding = attach.binding;
			binding.descriptorType = attach.getDescriptorType();
			binding.descriptorCount = 1u;
			binding.stageFlags = shaderStage;
			binding.pImmutableSamplers = nullptr;
			m_descriptorBindings.emplace_back( binding );
		}
""")]),
('ph-layouts', [(PH, """			std::vector< VkDescriptorSetLayout > layouts;
			layouts.push_back( m_descriptorSetLayout );
			layouts.insert( layouts.end()
				, m_baseConfig.m_layouts.begin()
				, m_baseConfig.m_layouts.end() );
""", """			std::vector< VkDescriptorSetLayout > layouts{ m_descriptorSetLayout };

			for ( auto const & layout : m_baseConfig.m_layouts )
			{
				layouts.push_back( layout );
			}

""")]),
('ph-layouts2', [(PH, """			std::vector< VkDescriptorSetLayout > layouts;
			layouts.push_back( m_descriptorSetLayout );
			layouts.insert( layouts.end()
				, m_baseConfig.m_layouts.begin()
				, m_baseConfig.m_layouts.end() );
""", """			std::vector< VkDescriptorSetLayout > layouts = m_baseConfig.m_layouts;
			layouts.insert( layouts.begin(), m_descriptorSetLayout );
""")]),
('ph-pool', [(PH, """			assert( m_descriptorSetLayout );
			auto sizes = getBindingsSizes( m_descriptorBindings, uint32_t( m_descriptorSets.size() ) );
			VkDescriptorPoolCreateInfo createInfo{ VK_STRUCTURE_TYPE_DESCRIPTOR_POOL_CREATE_INFO
				, nullptr
				, 0u
				, uint32_t( m_descriptorSets.size() )
				, uint32_t( sizes.size() )
				, sizes.data() };
""", """			assert( m_descriptorSetLayout );
			auto const maxSets = uint32_t( m_descriptorSets.size() );
			auto const sizes = getBindingsSizes( m_descriptorBindings, maxSets );
			VkDescriptorPoolCreateInfo createInfo{};
			createInfo.sType = VK_STRUCTURE_TYPE_DESCRIPTOR_POOL_CREATE_INFO;
			createInfo.maxSets = maxSets;
			createInfo.poolSizeCount = uint32_t( sizes.size() );
			createInfo.pPoolSizes = sizes.data();
""")]),
('rp-addattach', [(RP, """			if ( view.data->source.empty() )
			{
				context.setLayoutState( view, finalLayout );
			}
			else
			{
				for ( auto & source : view.data->source )
				{
					context.setLayoutState( source, finalLayout );
				}
			}
""", """			auto const & sources = view.data->source;

			if ( sources.empty() )
			{
				context.setLayoutState( view, finalLayout );
			}

			for ( size_t i = 0u; i < sources.size(); ++i )
			{
				context.setLayoutState( sources[i], finalLayout );
			}
""")]),
('rp-addattach-desc', [(RP, """			VkAttachmentReference result{ uint32_t( attaches.size() )
				, attach.getImageLayout( separateDepthStencilLayouts ) };
			attaches.push_back( { 0u
				, view.data->info.format
				, view.data->image.data->info.samples
				, ( initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED
					? VK_ATTACHMENT_LOAD_OP_CLEAR
					: attach.getLoadOp() )
				, attach.getStoreOp()
				, attach.getStencilLoadOp()
				, attach.getStencilStoreOp()
				, initialLayout.layout
				, finalLayout.layout } );
			viewAttaches.push_back( { view, initialLayout, finalLayout } );
			clearValues.push_back( attach.getClearValue() );
""", """			auto loadOp = attach.getLoadOp();

			if ( initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED )
			{
				loadOp = VK_ATTACHMENT_LOAD_OP_CLEAR;
			}

			VkAttachmentReference result{};
			result.attachment = uint32_t( attaches.size() );
			result.layout = attach.getImageLayout( separateDepthStencilLayouts );
			VkAttachmentDescription description{};
			description.format = view.data->info.format;
			description.samples = view.data->image.data->info.samples;
			description.loadOp = loadOp;
			description.storeOp = attach.getStoreOp();
			description.stencilLoadOp = attach.getStencilLoadOp();
			description.stencilStoreOp = attach.getStencilStoreOp();
			description.initialLayout = initialLayout.layout;
			description.finalLayout = finalLayout.layout;
			clearValues.push_back( attach.getClearValue() );
			viewAttaches.push_back( { view, initialLayout, finalLayout } );
			attaches.push_back( description );
""")]),
('rp-check', [(RP, """			auto it = std::find_if( attaches.begin()
				, attaches.end()
				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
				{
					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
					return layout != lookup.input
						&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED;
				} );
			return it == attaches.end();
""", """			for ( auto const & lookup : attaches )
			{
				auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );

				if ( layout.layout == VK_IMAGE_LAYOUT_UNDEFINED )
				{
					continue;
				}

				if ( layout != lookup.input )
				{
					return false;
				}
			}

			return true;
""")]),
('rp-check2', [(RP, """			auto it = std::find_if( attaches.begin()
				, attaches.end()
				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
				{
					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
					return layout != lookup.input
						&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED;
				} );
			return it == attaches.end();
""", """			return std::all_of( attaches.begin()
				, attaches.end()
				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
				{
					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
					return layout.layout == VK_IMAGE_LAYOUT_UNDEFINED
						|| !( layout != lookup.input );
				} );
""")]),
('rp-neq', [(RP, """			return lhs.layout != rhs.layout
				|| lhs.state.access != rhs.state.access
				|| ( lhs.state.access != 0 && lhs.state.pipelineStage != rhs.state.pipelineStage );
""", """			if ( lhs.layout != rhs.layout || lhs.state.access != rhs.state.access )
			{
				return true;
			}

			return rhs.state.access != 0 && lhs.state.pipelineStage != rhs.state.pipelineStage;
""")]),
('rp-initialise', [(RP, """		if ( data.renderPass
			&& rpHolder::checkAttaches( context, data.attaches, passIndex )
			&& data.previousState == previousState
			&& data.nextState == nextState )
		{
			return false;
		}

		data.cleanup( m_context );
		doCreateRenderPass( context
			, runnable
			, previousState
			, nextState
			, passIndex );
		doInitialiseRenderArea( passIndex );
		return true;
""", """		bool const upToDate = data.renderPass
			&& data.previousState == previousState
			&& data.nextState == nextState
			&& rpHolder::checkAttaches( context, data.attaches, passIndex );

		if ( !upToDate )
		{
			data.cleanup( m_context );
			doCreateRenderPass( context
				, runnable
				, previousState
				, nextState
				, passIndex );
			doInitialiseRenderArea( passIndex );
		}

		return !upToDate;
""")]),
('rp-begininfo', [(RP, """		auto frameBuffer = getFramebuffer( index );
		return VkRenderPassBeginInfo{ VK_STRUCTURE_TYPE_RENDER_PASS_BEGIN_INFO
			, nullptr
			, getRenderPass( index )
			, frameBuffer
			, getRenderArea( index )
			, uint32_t( getClearValues( index ).size() )
			, getClearValues( index ).data() };
""", """		auto & clearValues = getClearValues( index );
		VkRenderPassBeginInfo result{};
		result.sType = VK_STRUCTURE_TYPE_RENDER_PASS_BEGIN_INFO;
		result.pNext = nullptr;
		result.renderPass = getRenderPass( index );
		result.framebuffer = getFramebuffer( index );
		result.renderArea = getRenderArea( index );
		result.clearValueCount = uint32_t( clearValues.size() );
		result.pClearValues = clearValues.data();
		return result;
""")]),
('rp-end', [(RP, """		m_context.vkCmdEndRenderPass( commandBuffer );

		for ( auto & attach : m_currentPass->attaches )
		{
			context.setLayoutState( resolveView( attach.view, m_index )
				, attach.output );
		}

		m_currentPass = nullptr;
""", """		auto & currentPass = m_passes[m_index];

		for ( auto & [view, input, output] : currentPass.attaches )
		{
			context.setLayoutState( resolveView( view, m_index )
				, output );
		}

		m_currentPass = nullptr;
		m_context.vkCmdEndRenderPass( commandBuffer );
""")]),
('rp-create-continue', [(RP, """			if ( attach.isDepthAttach()
				|| attach.isStencilAttach()
				|| attach.isColourAttach() )
			{
				auto view = attach.view( passIndex );
				auto resolved = resolveView( view, passIndex );
				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
				auto from = ( !attach.isInput()
					? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
					: currentLayout );
				checkUndefinedInput( "RenderPass", attach, resolved, from.layout );
""", """			bool const isDepthStencil = attach.isDepthAttach() || attach.isStencilAttach();

			if ( isDepthStencil || attach.isColourAttach() )
			{
				auto const view = attach.view( passIndex );
				auto const resolved = resolveView( view, passIndex );
				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
				auto from = crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED );

				if ( attach.isInput() )
				{
					from = m_graph.getCurrentLayoutState( context, resolved );
				}

				checkUndefinedInput( "RenderPass", attach, resolved, from.layout );
"""), (RP, """				if ( attach.isDepthAttach() || attach.isStencilAttach() )
				{
					depthReference""", """				if ( isDepthStencil )
				{
					depthReference"""), (RP, "				else if ( attach.isColourAttach() )\n", "				else\n")]),
('rp-create-subpass', [(RP, """		VkSubpassDescription subpassDesc{ 0u
			, VK_PIPELINE_BIND_POINT_GRAPHICS
			, 0u
			, nullptr
			, uint32_t( colorReferences.size() )
			, colorReferences.data()
			, nullptr
			, depthReference.layout ? &depthReference : nullptr
			, 0u
			, nullptr };
		data.previousState = previousState;
		data.nextState = nextState;
""", """		data.nextState = nextState;
		data.previousState = previousState;
		VkSubpassDescription subpassDesc{};
		subpassDesc.pipelineBindPoint = VK_PIPELINE_BIND_POINT_GRAPHICS;
		subpassDesc.colorAttachmentCount = uint32_t( colorReferences.size() );
		subpassDesc.pColorAttachments = colorReferences.data();

		if ( depthReference.layout != VK_IMAGE_LAYOUT_UNDEFINED )
		{
			subpassDesc.pDepthStencilAttachment = &depthReference;
		}

""")]),
('rp-create-deps', [(RP, """		VkSubpassDependencyArray dependencies{
			{ VK_SUBPASS_EXTERNAL
				, 0u
				, previousState.pipelineStage
				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
				, previousState.access
				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
				, VK_DEPENDENCY_BY_REGION_BIT }
			, { 0u
				, VK_SUBPASS_EXTERNAL
				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
				, nextState.pipelineStage
				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
				, nextState.access
				, VK_DEPENDENCY_BY_REGION_BIT } };
""", """		constexpr VkAccessFlags attachAccess = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
		VkSubpassDependencyArray dependencies;
		dependencies.push_back( { VK_SUBPASS_EXTERNAL
			, 0u
			, previousState.pipelineStage
			, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
			, previousState.access
			, attachAccess
			, VK_DEPENDENCY_BY_REGION_BIT } );
		dependencies.push_back( { 0u
			, VK_SUBPASS_EXTERNAL
			, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
			, nextState.pipelineStage
			, attachAccess
			, nextState.access
			, VK_DEPENDENCY_BY_REGION_BIT } );
""")]),
('rp-area', [(RP, """		uint32_t width{ m_size.width };
		uint32_t height{ m_size.height };
		m_passes[index].attachments.clear();
		m_layers = 1u;
""", """		auto & data = m_passes[index];
		auto [width, height] = m_size;
		m_layers = 1u;
		data.attachments.clear();
"""), (RP, "				m_passes[index].attachments.push_back( &attach );", "				data.attachments.push_back( &attach );"), (RP, """		m_passes[index].renderArea.extent.width = width;
		m_passes[index].renderArea.extent.height = height;
""", """		data.renderArea.extent = { width, height };
""")]),
('rp-area2', [(RP, """				width = std::max( width, extent.width );
				height = std::max( height, extent.height );
				m_layers = std::max( m_layers
					, view.data->info.subresourceRange.layerCount );
""", """				auto const layerCount = view.data->info.subresourceRange.layerCount;

				if ( extent.width > width )
				{
					width = extent.width;
				}

				height = ( height < extent.height ) ? extent.height : height;

				if ( m_layers < layerCount )
				{
					m_layers = layerCount;
				}
""")]),
('rp-fb', [(RP, """		auto & data = m_passes[passIndex];
		auto frameBuffer = &data.frameBuffer;

		if ( !*frameBuffer )
		{
			VkImageViewArray attachments;

			for ( auto & attach : data.attachments )
			{
				attachments.push_back( m_graph.createImageView( attach->view( passIndex ) ) );
			}

			VkFramebufferCreateInfo""", """		auto & data = m_passes[passIndex];
		auto & frameBuffer = data.frameBuffer;

		if ( frameBuffer == VkFramebuffer{} )
		{
			VkImageViewArray attachments( data.attachments.size() );
			std::transform( data.attachments.begin()
				, data.attachments.end()
				, attachments.begin()
				, [this, passIndex]( auto const * attach )
				{
					return m_graph.createImageView( attach->view( passIndex ) );
				} );

			VkFramebufferCreateInfo"""), (RP, """				, frameBuffer );
			auto name""", """				, &frameBuffer );
			auto name"""), (RP, "crgRegisterObject( m_context, name, *frameBuffer );", "crgRegisterObject( m_context, name, frameBuffer );"), (RP, "		return *frameBuffer;", "		return frameBuffer;")]),
('rp-fb-early', [(RP, """		if ( !*frameBuffer )
		{
			VkImageViewArray attachments;

			for ( auto & attach : data.attachments )
			{
				attachments.push_back( m_graph.createImageView( attach->view( passIndex ) ) );
			}

			VkFramebufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_FRAMEBUFFER_CREATE_INFO
				, nullptr
				, 0u
				, data.renderPass
				, uint32_t( attachments.size() )
				, attachments.data()
				, data.renderArea.extent.width
				, data.renderArea.extent.height
				, m_layers };
			auto res = m_context.vkCreateFramebuffer( m_context.device
				, &createInfo
				, m_context.allocator
				, frameBuffer );
			auto name = m_pass.getGroupName() + std::string( "[" ) + std::to_string( passIndex ) + std::string( "]" );
			checkVkResult( res, name + " - Framebuffer creation" );
			crgRegisterObject( m_context, name, *frameBuffer );
		}

		return *frameBuffer;
""", """		if ( *frameBuffer )
		{
			return *frameBuffer;
		}

		VkImageViewArray attachments;
		attachments.reserve( data.attachments.size() );

		for ( auto & attach : data.attachments )
		{
			attachments.emplace_back( m_graph.createImageView( attach->view( passIndex ) ) );
		}

		auto const & extent = data.renderArea.extent;
		VkFramebufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_FRAMEBUFFER_CREATE_INFO
			, nullptr
			, 0u
			, data.renderPass
			, uint32_t( attachments.size() )
			, attachments.data()
			, extent.width
			, extent.height
			, m_layers };
		auto const name = m_pass.getGroupName() + "[" + std::to_string( passIndex ) + "]";
		auto res = m_context.vkCreateFramebuffer( m_context.device
			, &createInfo
			, m_context.allocator
			, frameBuffer );
		checkVkResult( res, name + " - Framebuffer creation" );
		crgRegisterObject( m_context, name, *frameBuffer );
		return *frameBuffer;
""")]),
('rq-init', [(RQ, """		if ( !m_vertexBuffer )
		{
			m_pipeline.initialise();
			m_vertexBuffer = &m_graph.createQuadTriVertexBuffer( m_useTexCoord
				, m_config.texcoordConfig );
			doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
		}
		else if ( m_renderPass != renderPass )
		{
			resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
		}

		doCreatePipeline( index );
""", """		if ( m_vertexBuffer )
		{
			if ( renderPass != m_renderPass )
			{
				resetRenderPass( renderSize, renderPass, blendState, index );
			}
		}
		else
		{
			m_pipeline.initialise();
			auto & vertexBuffer = m_graph.createQuadTriVertexBuffer( m_useTexCoord
				, m_config.texcoordConfig );
			m_vertexBuffer = &vertexBuffer;
			doPreparePipelineStates( renderSize, renderPass, blendState );
		}

		doCreatePipeline( index );
""")]),
('rq-record', [(RQ, """		VkDeviceSize offset{};

		if ( m_vertexBuffer
			&& m_vertexBuffer->buffer.buffer( index ) )
		{
			context->vkCmdBindVertexBuffers( commandBuffer, 0u, 1u, &m_vertexBuffer->buffer.buffer( index ), &offset );
		}

		if ( auto indirectBuffer = m_config.indirectBuffer.buffer.buffer( index ) )
		{
			context->vkCmdDrawIndirect( commandBuffer, indirectBuffer, m_config.indirectBuffer.offset, 1u, m_config.indirectBuffer.stride );
		}
		else
		{
			context->vkCmdDraw( commandBuffer, 3u, m_config.m_instances, 0u, 0u );
		}
""", """		if ( m_vertexBuffer )
		{
			auto const & vertexBuffer = m_vertexBuffer->buffer.buffer( index );

			if ( vertexBuffer )
			{
				VkDeviceSize const offset{};
				context->vkCmdBindVertexBuffers( commandBuffer, 0u, 1u, &vertexBuffer, &offset );
			}
		}

		auto const & indirect = m_config.indirectBuffer;
		auto indirectBuffer = indirect.buffer.buffer( index );

		if ( !indirectBuffer )
		{
			context->vkCmdDraw( commandBuffer, 3u, m_config.m_instances, 0u, 0u );
			return;
		}

		context->vkCmdDrawIndirect( commandBuffer, indirectBuffer, indirect.offset, 1u, indirect.stride );
""")]),
('rq-enabled', [(RQ, """		return ( m_config.isEnabled
			? ( *m_config.isEnabled )()
			: ( m_config.enabled ? *m_config.enabled : true ) );
""", """		if ( m_config.isEnabled.has_value() )
		{
			return m_config.isEnabled.value()();
		}

		return !m_config.enabled || *m_config.enabled;
""")]),
('rq-passindex', [(RQ, """		return ( m_config.passIndex
			? *m_config.passIndex
			: 0u );
""", """		if ( m_config.passIndex == nullptr )
		{
			return 0u;
		}

		return *m_config.passIndex;
""")]),
('rq-prepare', [(RQ, """		m_vpState = doCreateViewportState( renderSize, m_viewport, m_scissor );
		m_renderSize = renderSize;
		m_renderPass = renderPass;
		m_blendAttachs = { blendState.pAttachments, blendState.pAttachments + blendState.attachmentCount };
		m_blendState = std::move( blendState );
		m_blendState.pAttachments = m_blendAttachs.data();
""", """		m_renderPass = renderPass;
		m_renderSize = renderSize;
		m_blendState = blendState;
		m_blendAttachs.assign( blendState.pAttachments, blendState.pAttachments + blendState.attachmentCount );
		m_blendState.pAttachments = m_blendAttachs.data();
		m_vpState = doCreateViewportState( m_renderSize, m_viewport, m_scissor );
""")]),
('rq-createpip', [(RQ, """		if ( m_pipeline.getPipeline( index ) )
		{
			return;
		}

		auto & program = m_pipeline.getProgram( index );
		VkGraphicsPipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO
			, nullptr
			, 0u
			, uint32_t( program.size() )
			, program.data()
			, &getInputState()
			, &m_iaState
			, nullptr
			, &m_vpState
			, &m_rsState
			, &m_msState
			, &m_config.depthStencilState
			, &m_blendState
			, nullptr
			, m_pipeline.getPipelineLayout()
			, m_renderPass
			, 0u
			, VkPipeline{}
			, 0u };
		m_pipeline.createPipeline( index, createInfo );
""", """		if ( !m_pipeline.getPipeline( index ) )
		{
			auto & program = m_pipeline.getProgram( index );
			VkGraphicsPipelineCreateInfo createInfo{};
			createInfo.sType = VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO;
			createInfo.stageCount = uint32_t( program.size() );
			createInfo.pStages = program.data();
			createInfo.pVertexInputState = &getInputState();
			createInfo.pInputAssemblyState = &m_iaState;
			createInfo.pViewportState = &m_vpState;
			createInfo.pRasterizationState = &m_rsState;
			createInfo.pMultisampleState = &m_msState;
			createInfo.pDepthStencilState = &m_config.depthStencilState;
			createInfo.pColorBlendState = &m_blendState;
			createInfo.layout = m_pipeline.getPipelineLayout();
			createInfo.renderPass = m_renderPass;
			m_pipeline.createPipeline( index, createInfo );
		}
""")]),
('rq-viewport', [(RQ, """		viewport = { float( m_config.renderPosition.x )
			, float( m_config.renderPosition.y )
			, float( renderSize.width )
			, float( renderSize.height )
			, 0.0f
			, 1.0f };
		scissor = { { m_config.renderPosition.x, m_config.renderPosition.y }
			, { renderSize.width, renderSize.height } };
""", """		auto const & position = m_config.renderPosition;
		scissor.offset = position;
		scissor.extent = renderSize;
		viewport.x = float( position.x );
		viewport.y = float( position.y );
		viewport.width = float( renderSize.width );
		viewport.height = float( renderSize.height );
		viewport.minDepth = 0.0f;
		viewport.maxDepth = 1.0f;
""")]),
('rm-record', [(RM, """		if ( auto indirectBuffer = m_config.indirectBuffer.buffer.buffer( index ) )
		{
			if ( auto indexBuffer = m_config.indexBuffer.buffer.buffer( index ) )
			{
				context->vkCmdBindIndexBuffer( commandBuffer, indexBuffer, offset, m_config.getIndexType() );
				context->vkCmdDrawIndexedIndirect( commandBuffer, indirectBuffer, m_config.indirectBuffer.offset, 1u, m_config.indirectBuffer.stride );
			}
			else
			{
				context->vkCmdDrawIndirect( commandBuffer, indirectBuffer, m_config.indirectBuffer.offset, 1u, m_config.indirectBuffer.stride );
			}
		}
		else if ( auto indexBuffer = m_config.indexBuffer.buffer.buffer( index ) )
		{
			context->vkCmdBindIndexBuffer( commandBuffer, indexBuffer, offset, m_config.getIndexType() );
			context->vkCmdDrawIndexed( commandBuffer, m_config.getPrimitiveCount(), 1u, 0u, 0u, 0u );
		}
		else
		{
			context->vkCmdDraw( commandBuffer, m_config.getVertexCount(), 1u, 0u, 0u );
		}
""", """		auto const & indirect = m_config.indirectBuffer;
		auto const indirectBuffer = indirect.buffer.buffer( index );
		auto const indexBuffer = m_config.indexBuffer.buffer.buffer( index );

		if ( indexBuffer )
		{
			context->vkCmdBindIndexBuffer( commandBuffer, indexBuffer, offset, m_config.getIndexType() );
		}

		if ( indirectBuffer && indexBuffer )
		{
			context->vkCmdDrawIndexedIndirect( commandBuffer, indirectBuffer, indirect.offset, 1u, indirect.stride );
		}
		else if ( indirectBuffer )
		{
			context->vkCmdDrawIndirect( commandBuffer, indirectBuffer, indirect.offset, 1u, indirect.stride );
		}
		else if ( indexBuffer )
		{
			context->vkCmdDrawIndexed( commandBuffer, m_config.getPrimitiveCount(), 1u, 0u, 0u, 0u );
		}
		else
		{
			context->vkCmdDraw( commandBuffer, m_config.getVertexCount(), 1u, 0u, 0u );
		}
""")]),
('rm-init', [(RM, """		m_pipeline.initialise();

		if ( !m_renderPass )
		{
			doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
		}
		else if ( m_renderPass != renderPass )
		{
			resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
		}

		doCreatePipeline( index );
""", """		m_pipeline.initialise();
		bool const first = ( m_renderPass == VkRenderPass{} );

		if ( !first && m_renderPass != renderPass )
		{
			resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
			return;
		}

		if ( first )
		{
			doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
		}

		doCreatePipeline( index );
""")]),
('rm-reset', [(RM, """		m_pipeline.resetPipeline( {}, index );
		doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
		doCreatePipeline( index );
""", """		doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
		m_pipeline.resetPipeline( VkPipelineShaderStageCreateInfoArray{}, index );
		doCreatePipeline( index );
""")]),
('rs-sizes', [(RS, """			auto it = std::find_if( result.begin()
				, result.end()
				, [&binding]( VkDescriptorPoolSize const & lookup )
				{
					return binding.descriptorType == lookup.type;
				} );

			if ( it == result.end() )
			{
				result.push_back( { binding.descriptorType, binding.descriptorCount * maxSets } );
			}
			else
			{
				it->descriptorCount += binding.descriptorCount * maxSets;
			}
""", """			auto const count = maxSets * binding.descriptorCount;
			auto it = std::find_if( result.begin()
				, result.end()
				, [&binding]( VkDescriptorPoolSize const & lookup )
				{
					return lookup.type == binding.descriptorType;
				} );

			if ( it != result.end() )
			{
				it->descriptorCount += count;
			}
			else
			{
				result.emplace_back( VkDescriptorPoolSize{ binding.descriptorType, count } );
			}
""")]),
('rs-record', [(RS, """		if ( m_holder.initialise( context, *this, index ) )
		{
			m_rpCallbacks.initialise( index );
		}

		m_holder.begin( context
			, commandBuffer
			, m_rpCallbacks.getSubpassContents()
			, index );
""", """		auto const changed = m_holder.initialise( context, *this, index );

		if ( changed )
		{
			m_rpCallbacks.initialise( index );
		}

		auto const contents = m_rpCallbacks.getSubpassContents();
		m_holder.begin( context, commandBuffer, contents, index );
""")]),
('ic-loop', [(IC, """		auto srcIt = m_pass.images.begin();
		auto dstIt = std::next( srcIt );

		while ( srcIt != m_pass.images.end() )
		{
			auto srcAttach{ srcIt->view( index ) };
			auto dstAttach{ dstIt->view( index ) };
""", """		auto const & images = m_pass.images;

		for ( size_t i = 0u; i < images.size(); i += 2u )
		{
			auto srcAttach{ images[i].view( index ) };
			auto dstAttach{ images[i + 1u].view( index ) };
"""), (IC, """
			srcIt = std::next( dstIt );

			if ( srcIt != m_pass.images.end() )
			{
				dstIt = std::next( srcIt );
			}
""", "")]),
('ic-loop2', [(IC, """		auto srcIt = m_pass.images.begin();
		auto dstIt = std::next( srcIt );

		while ( srcIt != m_pass.images.end() )
		{
			auto srcAttach{ srcIt->view( index ) };
			auto dstAttach{ dstIt->view( index ) };
""", """		for ( auto it = m_pass.images.begin(); it != m_pass.images.end(); it += 2 )
		{
			auto srcAttach{ it->view( index ) };
			auto dstAttach{ std::next( it )->view( index ) };
"""), (IC, """
			srcIt = std::next( dstIt );

			if ( srcIt != m_pass.images.end() )
			{
				dstIt = std::next( srcIt );
			}
""", "")]),
('ic-region', [(IC, """			VkImageCopy copyRegion{ imgCopy::convert( srcAttach.data->info.subresourceRange )
				, {}
				, imgCopy::convert( dstAttach.data->info.subresourceRange )
				, {}
				, m_copySize };
""", """			VkImageCopy copyRegion{};
			copyRegion.srcSubresource = imgCopy::convert( srcAttach.data->info.subresourceRange );
			copyRegion.dstSubresource = imgCopy::convert( dstAttach.data->info.subresourceRange );
			copyRegion.extent = m_copySize;
""")]),
('cp-dispatch', [(CP, """			context->vkCmdDispatch( commandBuffer
				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
""", """			auto groupCount = []( auto const & getter, uint32_t value )
			{
				return getter ? ( *getter )() : value;
			};
			auto const x = groupCount( m_cpConfig.getGroupCountX, m_cpConfig.groupCountX );
			auto const y = groupCount( m_cpConfig.getGroupCountY, m_cpConfig.groupCountY );
			auto const z = groupCount( m_cpConfig.getGroupCountZ, m_cpConfig.groupCountZ );
			context->vkCmdDispatch( commandBuffer, x, y, z );
""")]),
('cp-reset', [(CP, """		resetCommandBuffer( index );
		m_pipeline.resetPipeline( std::move( config ), index );
		doCreatePipeline( index );
		reRecordCurrent();
""", """		m_pipeline.resetPipeline( std::move( config ), index );
		resetCommandBuffer( index );
		doCreatePipeline( index );
		reRecordCurrent();
""")]),
('cp-createpip', [(CP, """			, program.front()
			, getPipelineLayout()
""", """			, program[0]
			, m_pipeline.getPipelineLayout()
""")]),
('gm-consts', [(GM, """		auto baseArrayLayer = viewId.data->info.subresourceRange.baseArrayLayer;
		auto layerCount = viewId.data->info.subresourceRange.layerCount;
		auto mipLevels = imageId.data->info.mipLevels;
""", """		auto const & viewRange = viewId.data->info.subresourceRange;
		auto const baseArrayLayer = viewRange.baseArrayLayer;
		auto const layerCount = viewRange.layerCount;
		auto const mipLevels = imageId.data->info.mipLevels;
"""), (GM, """		for ( uint32_t i = 0u; i < layerCount; ++i )
		{
			auto layer = baseArrayLayer + i;
""", """		for ( uint32_t layer = baseArrayLayer; layer < baseArrayLayer + layerCount; ++layer )
		{
""")]),
('gm-last', [(GM, """				if ( mipSubRange.baseMipLevel == ( mipLevels - 1u ) )
				{
					// Transition final mip level to wanted output layout
					context.memoryBarrier( commandBuffer
						, imageId
						, mipSubRange
						, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
						, nextLayoutState );
				}
				else
				{
					// Transition current mip level to transfer source for read in next iteration
					context.memoryBarrier( commandBuffer
						, imageId
						, mipSubRange
						, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
						, { VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
							, getAccessMask( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL )
							, getStageMask( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) } );
				}
""", """				auto wanted = nextLayoutState;

				if ( mipSubRange.baseMipLevel + 1u != mipLevels )
				{
					// Transition current mip level to transfer source for read in next iteration
					wanted = makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL );
				}

				context.memoryBarrier( commandBuffer
					, imageId
					, mipSubRange
					, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
					, wanted );
""")]),
('gm-for', [(GM, """			while ( ++mipSubRange.baseMipLevel < mipLevels )
			{
""", """			for ( uint32_t level = 1u; level < mipLevels; ++level )
			{
				mipSubRange.baseMipLevel = level;
""")]),
('bi-region', [(BI, """		auto range = bufToImg::convert( dstAttach.data->info.subresourceRange );
		VkBufferImageCopy copyRegion{ 0ULL
			, 0u
			, 0u
			, range
			, m_copyOffset
			, m_copySize };
""", """		VkBufferImageCopy copyRegion{};
		copyRegion.imageSubresource = bufToImg::convert( dstAttach.data->info.subresourceRange );
		copyRegion.imageOffset = m_copyOffset;
		copyRegion.imageExtent = m_copySize;
""")]),
('ib-helper', [(IB, """			, { m_srcOffset, VkOffset3D{ m_srcOffset.x + int32_t( m_srcSize.width ), m_srcOffset.y + int32_t( m_srcSize.height ), m_srcOffset.z + int32_t( m_srcSize.depth ) } }
""", """			, { m_srcOffset, imgBlit::corner( m_srcOffset, m_srcSize ) }
"""), (IB, """			, { m_dstOffset, VkOffset3D{ m_dstOffset.x + int32_t( m_dstSize.width ), m_dstOffset.y + int32_t( m_dstSize.height ), m_dstOffset.z + int32_t( m_dstSize.depth ) } } };
""", """			, { m_dstOffset, imgBlit::corner( m_dstOffset, m_dstSize ) } };
"""), (IB, """		static VkImageSubresourceLayers convert(""", """		static VkOffset3D corner( VkOffset3D const & offset, VkExtent3D const & size )
		{
			return { offset.x + int32_t( size.width )
				, offset.y + int32_t( size.height )
				, offset.z + int32_t( size.depth ) };
		}

		static VkImageSubresourceLayers convert(""")]),
]
