// Reference models: pipelines, descriptors, dispatches and draws.
#include "spec.hpp"
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>

namespace spec
{
	using Pipes = PipelineHolder;
	// The only program serves every index; otherwise each index has its own.
	inline uint32_t slot( Pipes const & self, uint32_t index )
	{
		return self.m_baseConfig.m_programs.size() == 1u ? 0u : index;
	}
	template< typename ValueT >
	ValueT configured( std::optional< ValueT > const & value )
	{
		return value ? *value : defaultV< ValueT >;
	}
	void plCreate( Pipes & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, pp::Config config, VkPipelineBindPoint point, uint32_t maxPassCount )
	{
		self.m_bindingPoint = point;
		self.m_descriptorBindings = {};
		self.m_descriptorSetLayout = {};
		self.m_pipelineLayout = {};
		self.m_descriptorSetPool = {};
		self.m_baseConfig.m_programs = configured( config.m_programs );
		self.m_baseConfig.m_programCreator = configured( config.m_programCreator );
		self.m_baseConfig.m_layouts = configured( config.m_layouts );
		self.m_baseConfig.m_pushConstants = configured( config.m_pushConstants );
		if ( self.m_baseConfig.m_programCreator.create )
		{
			auto count = self.m_baseConfig.m_programCreator.maxCount;
			self.m_pipelines = {};
			self.m_pipelines.resize( count, VkPipeline{} );
			self.m_baseConfig.m_programs.resize( count );
		}
		else
		{
			self.m_pipelines = {};
			self.m_pipelines.resize( self.m_baseConfig.m_programs.size(), VkPipeline{} );
		}
		self.m_descriptorSets = {};
		self.m_descriptorSets.resize( maxPassCount );
	}
	void plInitialise( Pipes & self )
	{
		if ( self.m_pipelineLayout )
			return;
		self.doFillDescriptorBindings();
		self.doCreateDescriptorSetLayout();
		self.doCreatePipelineLayout();
		self.doCreateDescriptorPool();
	}
	void plCleanup( Pipes & self )
	{
		auto & context = self.m_context;
		self.m_descriptorBindings.clear();
		for ( auto & s : self.m_descriptorSets )
			if ( s.set )
			{
				crgUnregisterObject( context, s.set );
				s.writes.clear();
				s.set = {};
			}
		if ( self.m_descriptorSetPool )
		{
			crgUnregisterObject( context, self.m_descriptorSetPool );
			context.vkDestroyDescriptorPool( context.device, self.m_descriptorSetPool, context.allocator );
			self.m_descriptorSetPool = {};
		}
		for ( auto & p : self.m_pipelines )
			if ( p )
			{
				crgUnregisterObject( context, p );
				context.vkDestroyPipeline( context.device, p, context.allocator );
				p = {};
			}
		if ( self.m_pipelineLayout )
		{
			crgUnregisterObject( context, self.m_pipelineLayout );
			context.vkDestroyPipelineLayout( context.device, self.m_pipelineLayout, context.allocator );
			self.m_pipelineLayout = {};
		}
		if ( self.m_descriptorSetLayout )
		{
			crgUnregisterObject( context, self.m_descriptorSetLayout );
			context.vkDestroyDescriptorSetLayout( context.device, self.m_descriptorSetLayout, context.allocator );
			self.m_descriptorSetLayout = {};
		}
	}
	void plDestroy( Pipes & self )
	{
		self.cleanup();
	}
	VkPipelineShaderStageCreateInfoArray const & plProgram( Pipes & self, uint32_t index )
	{
		if ( self.m_baseConfig.m_programCreator.create )
			self.m_baseConfig.m_programs[index] = self.m_baseConfig.m_programCreator.create( index );
		return self.m_baseConfig.m_programs[slot( self, index )];
	}
	VkPipeline & plPipeline( Pipes & self, uint32_t index )
	{
		return self.m_pipelines[slot( self, index )];
	}
	void plGraphics( Pipes & self, uint32_t index, std::string const & name, VkGraphicsPipelineCreateInfo const & info )
	{
		auto & context = self.m_context;
		if ( !context.vkCreateGraphicsPipelines )
			return;
		auto & pipeline = self.getPipeline( index );
		checkVkResult( context.vkCreateGraphicsPipelines( context.device, context.cache, 1u, &info, context.allocator, &pipeline ), name );
		crgRegisterObject( context, name, pipeline );
	}
	void plCompute( Pipes & self, uint32_t index, std::string const & name, VkComputePipelineCreateInfo const & info )
	{
		auto & context = self.m_context;
		if ( !context.vkCreateComputePipelines )
			return;
		auto & pipeline = self.getPipeline( index );
		checkVkResult( context.vkCreateComputePipelines( context.device, context.cache, 1u, &info, context.allocator, &pipeline ), name );
		crgRegisterObject( context, name, pipeline );
	}
	void plRecord( Pipes & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		self.createDescriptorSet( index );
		auto & pipeline = self.getPipeline( index );
		rc->vkCmdBindPipeline( cmd, self.m_bindingPoint, pipeline );
		rc->vkCmdBindDescriptorSets( cmd, self.m_bindingPoint, self.m_pipelineLayout, 0u, 1u, &self.m_descriptorSets[index].set, 0u, nullptr );
	}
	void plReset( Pipes & self, VkPipelineShaderStageCreateInfoArray program, uint32_t index )
	{
		if ( self.m_pipelines.size() == 1u )
			index = 0u;
		auto old = self.m_pipelines[index];
		if ( old )
		{
			self.m_context.delQueue.push( [old]( GraphContext & context )
				{
					crgUnregisterObject( context, old );
					context.vkDestroyPipeline( context.device, old, context.allocator );
				} );
			self.m_pipelines[index] = {};
		}
		if ( !program.empty() )
			self.m_baseConfig.m_programs[index] = std::move( program );
	}
	void plBindings( Pipes & self )
	{
		self.m_descriptorBindings.clear();
		VkShaderStageFlags stages = VK_SHADER_STAGE_COMPUTE_BIT;
		if ( self.m_bindingPoint != VK_PIPELINE_BIND_POINT_COMPUTE )
			stages = VK_SHADER_STAGE_ALL_GRAPHICS;
		for ( auto & a : self.m_pass.images )
			if ( a.isSampledView() || a.isStorageView() )
				self.m_descriptorBindings.push_back( { a.binding, a.getDescriptorType(), 1u, stages, nullptr } );
		for ( auto & a : self.m_pass.buffers )
			if ( a.isUniformBuffer() || a.isStorageBuffer() || a.isUniformBufferView() || a.isStorageBufferView() )
				self.m_descriptorBindings.push_back( { a.binding, a.getDescriptorType(), 1u, stages, nullptr } );
	}
	void plSetLayout( Pipes & self )
	{
		auto & context = self.m_context;
		if ( !context.vkCreateDescriptorSetLayout )
			return;
		VkDescriptorSetLayoutCreateInfo info{};
		info.sType = VK_STRUCTURE_TYPE_DESCRIPTOR_SET_LAYOUT_CREATE_INFO;
		info.bindingCount = uint32_t( self.m_descriptorBindings.size() );
		info.pBindings = self.m_descriptorBindings.data();
		checkVkResult( context.vkCreateDescriptorSetLayout( context.device, &info, context.allocator, &self.m_descriptorSetLayout ), "set layout" );
		crgRegisterObject( context, self.m_pass.getGroupName(), self.m_descriptorSetLayout );
	}
	void plLayout( Pipes & self )
	{
		auto & context = self.m_context;
		if ( !context.vkCreatePipelineLayout )
			return;
		std::vector< VkDescriptorSetLayout > sets{ self.m_descriptorSetLayout };
		for ( auto & l : self.m_baseConfig.m_layouts )
			sets.push_back( l );
		VkPipelineLayoutCreateInfo info{};
		info.sType = VK_STRUCTURE_TYPE_PIPELINE_LAYOUT_CREATE_INFO;
		info.setLayoutCount = uint32_t( sets.size() );
		info.pSetLayouts = sets.data();
		info.pushConstantRangeCount = uint32_t( self.m_baseConfig.m_pushConstants.size() );
		info.pPushConstantRanges = self.m_baseConfig.m_pushConstants.data();
		checkVkResult( context.vkCreatePipelineLayout( context.device, &info, context.allocator, &self.m_pipelineLayout ), "layout" );
		crgRegisterObject( context, self.m_pass.getGroupName(), self.m_pipelineLayout );
	}
	void plPool( Pipes & self )
	{
		auto & context = self.m_context;
		if ( !context.vkCreateDescriptorPool )
			return;
		auto count = uint32_t( self.m_descriptorSets.size() );
		auto sizes = getBindingsSizes( self.m_descriptorBindings, count );
		VkDescriptorPoolCreateInfo info{};
		info.sType = VK_STRUCTURE_TYPE_DESCRIPTOR_POOL_CREATE_INFO;
		info.maxSets = count;
		info.poolSizeCount = uint32_t( sizes.size() );
		info.pPoolSizes = sizes.data();
		checkVkResult( context.vkCreateDescriptorPool( context.device, &info, context.allocator, &self.m_descriptorSetPool ), "pool" );
		crgRegisterObject( context, self.m_pass.getGroupName(), self.m_descriptorSetPool );
	}
	VkDescriptorPoolSizeArray plSizes( VkDescriptorSetLayoutBindingArray const & bindings, uint32_t maxSets )
	{
		VkDescriptorPoolSizeArray r;
		for ( auto & b : bindings )
		{
			auto it = std::find_if( r.begin(), r.end(), [&b]( VkDescriptorPoolSize const & s ){ return s.type == b.descriptorType; } );
			if ( it != r.end() )
				it->descriptorCount += maxSets * b.descriptorCount;
			else
				r.push_back( { b.descriptorType, maxSets * b.descriptorCount } );
		}
		return r;
	}
	void plDescriptorSet( Pipes & self, uint32_t index )
	{
		auto & s = self.m_descriptorSets[index];
		if ( s.set )
			return;
		for ( auto & a : self.m_pass.images )
		{
			if ( a.isSampledView() )
				s.writes.push_back( WriteDescriptorSet{ a.binding, 0u, VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER
					, VkDescriptorImageInfo{ self.m_graph.createSampler( a.getSamplerDesc() ), self.m_graph.createImageView( a.view( index ) ), VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL } } );
			else if ( a.isStorageView() )
				s.writes.push_back( WriteDescriptorSet{ a.binding, 0u, VK_DESCRIPTOR_TYPE_STORAGE_IMAGE
					, VkDescriptorImageInfo{ VkSampler{}, self.m_graph.createImageView( a.view( index ) ), VK_IMAGE_LAYOUT_GENERAL } } );
		}
		for ( auto & b : self.m_pass.buffers )
			if ( b.isStorageBuffer() || b.isUniformBuffer() )
				s.writes.push_back( b.getBufferWrite( index ) );
		VkDescriptorSetAllocateInfo info{};
		info.sType = VK_STRUCTURE_TYPE_DESCRIPTOR_SET_ALLOCATE_INFO;
		info.descriptorPool = self.m_descriptorSetPool;
		info.descriptorSetCount = 1u;
		info.pSetLayouts = &self.m_descriptorSetLayout;
		checkVkResult( self.m_context.vkAllocateDescriptorSets( self.m_context.device, &info, &s.set ), "set" );
		crgRegisterObject( self.m_context, self.m_pass.getGroupName(), s.set );
		for ( auto & w : s.writes )
			w.update( s.set );
		auto writes = makeVkArray< VkWriteDescriptorSet >( s.writes );
		self.m_context.vkUpdateDescriptorSets( self.m_context.device, uint32_t( writes.size() ), writes.data(), 0u, nullptr );
	}
	VkDescriptorSet plGetSet( Pipes & self, uint32_t index )
	{
		self.createDescriptorSet( index );
		return self.m_descriptorSets[index].set;
	}
	void wdUpdate( WriteDescriptorSet const & self, VkDescriptorSet set )
	{
		if ( !self.needsUpdate )
			return;
		self.vk.dstSet = set;
		self.vk.pImageInfo = self.imageInfo.data();
		self.vk.pBufferInfo = self.bufferInfo.data();
		self.vk.pTexelBufferView = self.texelBufferView.data();
	}
	WriteDescriptorSet baWrite( BufferAttachment const & self, uint32_t binding, uint32_t count, uint32_t index )
	{
		WriteDescriptorSet r{ binding, 0u, count, self.getDescriptorType() };
		VkDescriptorBufferInfo info{ self.buffer.buffer( index ), self.range.offset, self.range.size };
		if ( self.isView() )
		{
			r.bufferViewInfo.push_back( info );
			r.texelBufferView.push_back( self.view );
		}
		else
			r.bufferInfo.push_back( info );
		return r;
	}
	VkDescriptorType baType( BufferAttachment const & self )
	{
		if ( self.isView() )
		{
			if ( self.isUniform() )
				return VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
			if ( self.isStorage() )
				return VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
		}
		return self.isUniform() ? VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
	}
	VkDescriptorType iaType( ImageAttachment const & self )
	{
		return self.isStorageView() ? VK_DESCRIPTOR_TYPE_STORAGE_IMAGE : VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
	}

	// compute
	void cpInitialise( ComputePass & self, uint32_t index )
	{
		self.m_pipeline.initialise();
		self.doCreatePipeline( index );
		self.m_cpConfig.initialise( index );
	}
	void cpPipeline( ComputePass & self, uint32_t index )
	{
		if ( self.m_pipeline.getPipeline( index ) )
			return;
		auto & program = self.m_pipeline.getProgram( index );
		VkComputePipelineCreateInfo info{};
		info.sType = VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO;
		info.stage = program[0];
		info.layout = self.m_pipeline.m_pipelineLayout;
		self.m_pipeline.createPipeline( index, info );
	}
	void cpReset( ComputePass & self, VkPipelineShaderStageCreateInfoArray program, uint32_t index )
	{
		self.resetCommandBuffer( index );
		self.m_pipeline.resetPipeline( program, index );
		self.doCreatePipeline( index );
		self.reRecordCurrent();
	}
	bool cpEnabled( ComputePass const & self )
	{
		auto & c = self.m_cpConfig;
		if ( c.isEnabled )
			return ( *c.isEnabled )();
		return c.enabled ? *c.enabled : true;
	}
	uint32_t cpIndex( ComputePass const & self )
	{
		return self.m_cpConfig.getPassIndex();
	}
	void cpRecord( ComputePass & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		auto & c = self.m_cpConfig;
		self.m_pipeline.recordInto( rc, cmd, index );
		c.recordInto( rc, cmd, index );
		VkBuffer indirect = c.indirectBuffer.buffer.buffer( index );
		if ( indirect )
			rc->vkCmdDispatchIndirect( cmd, indirect, c.indirectBuffer.offset );
		else
		{
			uint32_t x = c.groupCountX, y = c.groupCountY, z = c.groupCountZ;
			if ( c.getGroupCountX )
				x = ( *c.getGroupCountX )();
			if ( c.getGroupCountY )
				y = ( *c.getGroupCountY )();
			if ( c.getGroupCountZ )
				z = ( *c.getGroupCountZ )();
			rc->vkCmdDispatch( cmd, x, y, z );
		}
		c.end( rc, cmd, index );
	}

	// meshes
	template< typename HolderT >
	void prepare( HolderT & self, VkExtent2D const & size, VkRenderPass pass, VkPipelineColorBlendStateCreateInfo blend )
	{
		auto & at = self.m_config.renderPosition;
		self.m_viewport = VkViewport{ float( at.x ), float( at.y ), float( size.width ), float( size.height ), 0.0f, 1.0f };
		self.m_scissor = VkRect2D{ at, size };
		VkPipelineViewportStateCreateInfo vp{};
		vp.sType = VK_STRUCTURE_TYPE_PIPELINE_VIEWPORT_STATE_CREATE_INFO;
		vp.viewportCount = 1u;
		vp.pViewports = &self.m_viewport;
		vp.scissorCount = 1u;
		vp.pScissors = &self.m_scissor;
		self.m_vpState = vp;
		self.m_renderSize = size;
		self.m_renderPass = pass;
		self.m_blendAttachs = { blend.pAttachments, blend.pAttachments + blend.attachmentCount };
		self.m_blendState = blend;
		self.m_blendState.pAttachments = self.m_blendAttachs.data();
	}
	template< typename HolderT >
	void graphics( HolderT & self, uint32_t index, VkPipelineVertexInputStateCreateInfo const & input )
	{
		auto & program = self.m_pipeline.getProgram( index );
		VkGraphicsPipelineCreateInfo info{};
		info.sType = VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO;
		info.stageCount = uint32_t( program.size() );
		info.pStages = program.data();
		info.pVertexInputState = &input;
		info.pInputAssemblyState = &self.m_iaState;
		info.pViewportState = &self.m_vpState;
		info.pRasterizationState = &self.m_rsState;
		info.pMultisampleState = &self.m_msState;
		info.pDepthStencilState = &self.m_config.depthStencilState;
		info.pColorBlendState = &self.m_blendState;
		info.layout = self.m_pipeline.m_pipelineLayout;
		info.renderPass = self.m_renderPass;
		self.m_pipeline.createPipeline( index, info );
	}
	template< typename HolderT >
	void restart( HolderT & self, VkExtent2D const & size, VkRenderPass pass, VkPipelineColorBlendStateCreateInfo blend, uint32_t index )
	{
		self.m_pipeline.resetPipeline( {}, index );
		self.doPreparePipelineStates( size, pass, blend );
		self.doCreatePipeline( index );
	}
	template< typename HolderT >
	void program( HolderT & self, VkPipelineShaderStageCreateInfoArray config, uint32_t index )
	{
		self.m_pipeline.resetPipeline( config, index );
		if ( self.m_renderPass )
			self.doCreatePipeline( index );
	}
	void rmInitialise( RenderMeshHolder & self, VkExtent2D const & size, VkRenderPass pass, VkPipelineColorBlendStateCreateInfo blend, uint32_t index )
	{
		self.m_pipeline.initialise();
		if ( !self.m_renderPass )
			self.doPreparePipelineStates( size, pass, blend );
		else if ( self.m_renderPass != pass )
			self.resetRenderPass( size, pass, blend, index );
		self.doCreatePipeline( index );
	}
	void rmPrepare( RenderMeshHolder & self, VkExtent2D const & size, VkRenderPass pass, VkPipelineColorBlendStateCreateInfo blend )
	{
		prepare( self, size, pass, blend );
	}
	void rmRestart( RenderMeshHolder & self, VkExtent2D const & size, VkRenderPass pass, VkPipelineColorBlendStateCreateInfo blend, uint32_t index )
	{
		restart( self, size, pass, blend, index );
	}
	void rmProgram( RenderMeshHolder & self, VkPipelineShaderStageCreateInfoArray config, uint32_t index )
	{
		program( self, config, index );
	}
	void rmPipeline( RenderMeshHolder & self, uint32_t index )
	{
		if ( !self.m_pipeline.getPipeline( index ) )
			graphics( self, index, self.m_config.vertexBuffer.inputState );
	}
	void rmRecord( RenderMeshHolder & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		self.doCreatePipeline( index );
		self.m_pipeline.recordInto( rc, cmd, index );
		auto & c = self.m_config;
		c.recordInto( rc, cmd, index );
		VkDeviceSize zero = 0u;
		if ( c.vertexBuffer.buffer.buffer( index ) )
			rc->vkCmdBindVertexBuffers( cmd, 0u, 1u, &c.vertexBuffer.buffer.buffer( index ), &zero );
		VkBuffer indices = c.indexBuffer.buffer.buffer( index );
		VkBuffer indirect = c.indirectBuffer.buffer.buffer( index );
		if ( indices )
			rc->vkCmdBindIndexBuffer( cmd, indices, 0u, c.getIndexType() );
		if ( indirect && indices )
			rc->vkCmdDrawIndexedIndirect( cmd, indirect, c.indirectBuffer.offset, 1u, c.indirectBuffer.stride );
		else if ( indirect )
			rc->vkCmdDrawIndirect( cmd, indirect, c.indirectBuffer.offset, 1u, c.indirectBuffer.stride );
		else if ( indices )
			rc->vkCmdDrawIndexed( cmd, c.getPrimitiveCount(), 1u, 0u, 0u, 0u );
		else
			rc->vkCmdDraw( cmd, c.getVertexCount(), 1u, 0u, 0u );
	}
	void rmEnd( RenderMeshHolder const & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		self.m_config.end( rc, cmd, index );
	}
	uint32_t rmIndex( RenderMeshHolder const & self )
	{
		return self.m_config.getPassIndex();
	}
	bool rmEnabled( RenderMeshHolder const & self )
	{
		return self.m_config.isEnabled();
	}
	void rmPass( RenderMesh & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		if ( self.m_renderPass.initialise( rc, self, index ) )
		{
			self.m_renderMesh.cleanup();
			self.m_renderMesh.initialise( self.m_renderPass.getRenderSize(), self.m_renderPass.getRenderPass( index ), self.m_renderPass.createBlendState(), index );
		}
		self.m_renderPass.begin( rc, cmd, VK_SUBPASS_CONTENTS_INLINE, index );
		self.m_renderMesh.record( rc, cmd, index );
		self.m_renderPass.end( rc, cmd );
		self.m_renderMesh.end( rc, cmd, index );
	}
	void rmReset( RenderMesh & self, VkPipelineShaderStageCreateInfoArray config, uint32_t index )
	{
		self.resetCommandBuffer( index );
		self.m_renderMesh.resetPipeline( config, index );
		self.reRecordCurrent();
	}

	// quads
	void rqInitialise( RenderQuadHolder & self, VkExtent2D const & size, VkRenderPass pass, VkPipelineColorBlendStateCreateInfo blend, uint32_t index )
	{
		if ( !self.m_vertexBuffer )
		{
			self.m_pipeline.initialise();
			self.m_vertexBuffer = &self.m_graph.createQuadTriVertexBuffer( self.m_useTexCoord, self.m_config.texcoordConfig );
			self.doPreparePipelineStates( size, pass, blend );
		}
		else if ( self.m_renderPass != pass )
			self.resetRenderPass( size, pass, blend, index );
		self.doCreatePipeline( index );
	}
	void rqPrepare( RenderQuadHolder & self, VkExtent2D const & size, VkRenderPass pass, VkPipelineColorBlendStateCreateInfo blend )
	{
		prepare( self, size, pass, blend );
	}
	void rqRestart( RenderQuadHolder & self, VkExtent2D const & size, VkRenderPass pass, VkPipelineColorBlendStateCreateInfo blend, uint32_t index )
	{
		restart( self, size, pass, blend, index );
	}
	void rqProgram( RenderQuadHolder & self, VkPipelineShaderStageCreateInfoArray config, uint32_t index )
	{
		program( self, config, index );
	}
	void rqPipeline( RenderQuadHolder & self, uint32_t index )
	{
		if ( !self.m_pipeline.getPipeline( index ) )
			graphics( self, index, self.m_vertexBuffer->inputState );
	}
	void rqRecord( RenderQuadHolder & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		self.doCreatePipeline( index );
		self.m_pipeline.recordInto( rc, cmd, index );
		auto & c = self.m_config;
		c.recordInto( rc, cmd, index );
		VkDeviceSize zero = 0u;
		if ( self.m_vertexBuffer && self.m_vertexBuffer->buffer.buffer( index ) )
			rc->vkCmdBindVertexBuffers( cmd, 0u, 1u, &self.m_vertexBuffer->buffer.buffer( index ), &zero );
		VkBuffer indirect = c.indirectBuffer.buffer.buffer( index );
		if ( indirect )
			rc->vkCmdDrawIndirect( cmd, indirect, c.indirectBuffer.offset, 1u, c.indirectBuffer.stride );
		else
			rc->vkCmdDraw( cmd, 3u, c.m_instances, 0u, 0u );
	}
	void rqEnd( RenderQuadHolder const & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		self.m_config.end( rc, cmd, index );
	}
	uint32_t rqIndex( RenderQuadHolder const & self )
	{
		if ( self.m_config.passIndex )
			return *self.m_config.passIndex;
		return 0u;
	}
	bool rqEnabled( RenderQuadHolder const & self )
	{
		auto & c = self.m_config;
		if ( c.isEnabled )
			return ( *c.isEnabled )();
		return c.enabled ? *c.enabled : true;
	}
	void rqPass( RenderQuad & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		if ( self.m_renderPass.initialise( rc, self, index ) )
			self.m_renderQuad.initialise( self.m_renderPass.getRenderSize(), self.m_renderPass.getRenderPass( index ), self.m_renderPass.createBlendState(), index );
		self.m_renderPass.begin( rc, cmd, VK_SUBPASS_CONTENTS_INLINE, index );
		self.m_renderQuad.record( rc, cmd, index );
		self.m_renderPass.end( rc, cmd );
		self.m_renderQuad.end( rc, cmd, index );
	}
	void rqReset( RenderQuad & self, VkPipelineShaderStageCreateInfoArray config, uint32_t index )
	{
		self.resetCommandBuffer( index );
		self.m_renderQuad.resetPipeline( config, index );
		self.reRecordCurrent();
	}
}
