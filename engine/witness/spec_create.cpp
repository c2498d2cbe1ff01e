// Reference models: construction of the runnable graph and of its passes.
#include "spec.hpp"

namespace spec
{
	inline AccessState wanted( RunnablePass & self, Attachment const & a )
	{
		return AccessState{ a.getAccessMask(), a.getPipelineStageFlags( self.m_callbacks.isComputePass() ) };
	}
	void passCreate( RunnablePass & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, RunnablePass::Callbacks callbacks, ru::Config config )
	{
		self.m_callbacks = callbacks;
		self.m_ruConfig = config;
		self.m_pipelineState = callbacks.getPipelineState();
		self.m_passes.clear();
		self.m_passContexts.clear();
		self.m_imageLayouts.images.clear();
		self.m_bufferAccesses.clear();
		FramePassTimer timer{ context, pass.getGroupName(), TimerScope::ePass, graph.getTimerQueryPool(), graph.getTimerQueryOffset() };
		for ( uint32_t i = 0u; i < config.maxPassCount; ++i )
		{
			self.m_passes.emplace_back( graph, context, pass.getGroupName() );
			self.m_passContexts.emplace_back( graph.getResources() );
		}
		for ( auto & a : pass.images )
		{
			for ( uint32_t i = 0u; i < a.getViewCount(); ++i )
			{
				auto view = a.view( i );
				if ( view.data->source.empty() )
					self.m_imageLayouts.setLayoutState( view, LayoutState{ a.getImageLayout( context.separateDepthStencilLayouts ), wanted( self, a ) } );
				else
					for ( auto & source : view.data->source )
						self.m_imageLayouts.setLayoutState( source, LayoutState{ a.getImageLayout( context.separateDepthStencilLayouts ), wanted( self, a ) } );
			}
		}
		for ( auto & a : pass.buffers )
			for ( uint32_t i = 0u; i < a.getBufferCount(); ++i )
				self.m_bufferAccesses.insert_or_assign( a.buffer( i ), wanted( self, a ) );
	}
	inline VkCommandPool commandPool( GraphContext & context, std::string const & name )
	{
		VkCommandPool result{};
		if ( context.vkCreateCommandPool )
		{
			VkCommandPoolCreateInfo info{ VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, nullptr, VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT, 0u };
			checkVkResult( context.vkCreateCommandPool( context.device, &info, context.allocator, &result ), name );
			crgRegisterObject( context, name, result );
		}
		return result;
	}
	void graphCreate( RunnableGraph & self, FrameGraph & graph, AttachmentTransitions transitions, GraphNodePtrArray nodes, RootNode root, GraphContext & context )
	{
		self.m_transitions = std::move( transitions );
		self.m_passes.clear();
		self.m_states.clear();
		auto pool = createQueryPool( context, graph.getName() + "TimerQueries", uint32_t( nodes.size() + 1u ) * 4u );
		auto commands = commandPool( context, graph.getName() );
		auto name = graph.getName() + "/Graph";
		Fence fence{ context, name, { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } };
		uint32_t offset{};
		FramePassTimer timer{ context, name, TimerScope::eGraph, pool, offset };
		self.m_semaphore = {};
		self.m_commandBuffer = {};
		if ( context.vkCreateSemaphore )
		{
			VkSemaphoreCreateInfo info{ VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO, nullptr, 0u };
			checkVkResult( context.vkCreateSemaphore( context.device, &info, context.allocator, &self.m_semaphore ), name );
			crgRegisterObject( context, name, self.m_semaphore );
		}
		if ( context.vkAllocateCommandBuffers )
		{
			VkCommandBufferAllocateInfo info{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, commands, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1u };
			checkVkResult( context.vkAllocateCommandBuffers( context.device, &info, &self.m_commandBuffer ), name );
			crgRegisterObject( context, name, self.m_commandBuffer );
			VkCommandBufferBeginInfo begin{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, nullptr, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT, nullptr };
			context.vkBeginCommandBuffer( self.m_commandBuffer, &begin );
			context.vkEndCommandBuffer( self.m_commandBuffer );
		}
		for ( auto & image : graph.m_images )
			self.m_resources.createImage( image );
		for ( auto & view : graph.m_imageViews )
			self.m_resources.createImageView( view );
		for ( auto & node : nodes )
			if ( node->getKind() == GraphNode::Kind::FramePass )
				self.m_passes.push_back( nodeCast< FramePassNode >( *node ).getFramePass().createRunnable( context, self ) );
		for ( auto & pass : self.m_passes )
			if ( pass->isEnabled() )
				pass->initialise( pass->getIndex() );
	}
	void passDataCreate( RunnablePass::PassData & self, RunnableGraph & graph, GraphContext & context, std::string const & name )
	{
		Fence fence{ context, name, { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } };
		self.semaphore = {};
		self.initialised = false;
		self.commandBuffer.commandBuffer = {};
		self.commandBuffer.recorded = false;
		if ( context.vkCreateSemaphore )
		{
			VkSemaphoreCreateInfo info{ VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO, nullptr, 0u };
			checkVkResult( context.vkCreateSemaphore( context.device, &info, context.allocator, &self.semaphore ), name );
			crgRegisterObject( context, name, self.semaphore );
		}
	}
	void passDataMove( RunnablePass::PassData & self, RunnablePass::PassData & rhs )
	{
		self.commandBuffer = rhs.commandBuffer;
		self.semaphore = rhs.semaphore;
		self.initialised = rhs.initialised;
		self.fence.m_context = rhs.fence.m_context;
		self.fence.m_fence = rhs.fence.m_fence;
		self.fence.m_fenceWaited = rhs.fence.m_fenceWaited;
		rhs.fence.m_context = nullptr;
		rhs.fence.m_fence = VkFence{};
		rhs.commandBuffer.commandBuffer = {};
		rhs.commandBuffer.recorded = false;
		rhs.semaphore = {};
		rhs.initialised = false;
	}
}
