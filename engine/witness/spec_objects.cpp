// Reference models: objects owned by the runtime (fences, semaphores, command buffers, pools).
#include "spec.hpp"

namespace spec
{
	template< typename ObjectT >
	void registerObject( GraphContext & context, std::string const & name, ObjectT object )
	{
		crg::GraphContext::stRegisterObject( context, name, object );
	}
	template< typename ObjectT >
	void unregisterObject( GraphContext & context, ObjectT object )
	{
		crg::GraphContext::stUnregisterObject( context, object );
	}
	inline VkSemaphore makeSemaphore( GraphContext & context, std::string const & name )
	{
		VkSemaphore result{};
		VkSemaphoreCreateInfo info{ VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO, nullptr, 0u };
		checkVkResult( context.vkCreateSemaphore( context.device, &info, context.allocator, &result ), name + " - Semaphore creation" );
		registerObject( context, name, result );
		return result;
	}
	void fenceCreate( Fence & self, GraphContext & context, std::string const & name, VkFenceCreateInfo info )
	{
		self.m_context = &context;
		self.m_fence = {};
		self.m_fenceWaited = false;
		if ( context.vkCreateFence )
		{
			checkVkResult( context.vkCreateFence( context.device, &info, context.allocator, &self.m_fence ), name + " - Fence creation" );
			registerObject( context, name, self.m_fence );
		}
	}
	void fenceMove( Fence & self, Fence & rhs )
	{
		self.m_context = rhs.m_context;
		self.m_fence = rhs.m_fence;
		self.m_fenceWaited = rhs.m_fenceWaited;
		rhs.m_context = nullptr;
		rhs.m_fence = VkFence{};
	}
	void fenceDestroy( Fence & self )
	{
		if ( self.m_fence && self.m_context && self.m_context->vkDestroyFence )
		{
			unregisterObject( *self.m_context, self.m_fence );
			self.m_context->vkDestroyFence( self.m_context->device, self.m_fence, self.m_context->allocator );
		}
	}
	void passDataDestroy( RunnablePass::PassData & self )
	{
		if ( self.semaphore && self.context.vkDestroySemaphore )
		{
			unregisterObject( self.context, self.semaphore );
			self.context.vkDestroySemaphore( self.context.device, self.semaphore, self.context.allocator );
		}
		if ( self.commandBuffer.commandBuffer && self.context.vkFreeCommandBuffers )
		{
			unregisterObject( self.context, self.commandBuffer.commandBuffer );
			self.context.vkFreeCommandBuffers( self.context.device, self.graph.m_commandPool.object, 1u, &self.commandBuffer.commandBuffer );
		}
	}
	VkCommandBuffer ownCommandBuffer( RunnablePass & self, std::string const & suffix )
	{
		VkCommandBuffer result{};
		if ( self.m_context.vkAllocateCommandBuffers )
		{
			VkCommandBufferAllocateInfo info{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, self.m_graph.m_commandPool.object, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1u };
			checkVkResult( self.m_context.vkAllocateCommandBuffers( self.m_context.device, &info, &result ), "CommandBuffer allocation" );
			registerObject( self.m_context, self.m_pass.getGroupName() + suffix, result );
		}
		return result;
	}
	void graphDestroy( RunnableGraph & self )
	{
		auto & context = self.m_context;
		if ( self.m_semaphore && context.vkDestroySemaphore )
		{
			unregisterObject( context, self.m_semaphore );
			context.vkDestroySemaphore( context.device, self.m_semaphore, context.allocator );
		}
		if ( self.m_commandBuffer && context.vkFreeCommandBuffers )
		{
			unregisterObject( context, self.m_commandBuffer );
			context.vkFreeCommandBuffers( context.device, self.m_commandPool.object, 1u, &self.m_commandBuffer );
		}
	}
	VkQueryPool queryPool( GraphContext & context, std::string const & name, uint32_t count )
	{
		VkQueryPool result{};
		if ( context.vkCreateQueryPool )
		{
			VkQueryPoolCreateInfo info{ VK_STRUCTURE_TYPE_QUERY_POOL_CREATE_INFO, nullptr, 0u, VK_QUERY_TYPE_TIMESTAMP, count, 0u };
			checkVkResult( context.vkCreateQueryPool( context.device, &info, context.allocator, &result ), name + " - VkQueryPool creation" );
			registerObject( context, name, result );
		}
		return result;
	}
}
