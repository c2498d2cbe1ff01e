// Reference models: what owners of GPU objects release, and deferred releases.
#include "spec.hpp"
#include <RenderGraph/RunnablePasses/PipelineHolder.hpp>

namespace spec
{
	auto dropQueryPool( RunnableGraph & )
	{
		return []( GraphContext & context, VkQueryPool & object )
		{
			crg::GraphContext::stUnregisterObject( context, object );
			context.vkDestroyQueryPool( context.device, object, context.allocator );
			object = VkQueryPool{};
		};
	}
	auto dropCommandPool( RunnableGraph & )
	{
		return []( GraphContext & context, VkCommandPool & object )
		{
			crg::GraphContext::stUnregisterObject( context, object );
			context.vkDestroyCommandPool( context.device, object, context.allocator );
			object = VkCommandPool{};
		};
	}
	template< typename ObjectT >
	void dropOwned( ContextObjectT< ObjectT > & self )
	{
		if ( self.destroy && self.object )
			self.destroy( self.context, self.object );
	}
	void dropQueries( ContextObjectT< VkQueryPool > & self )
	{
		dropOwned( self );
	}
	void dropCommands( ContextObjectT< VkCommandPool > & self )
	{
		dropOwned( self );
	}
	using DropQueries = void( * )( GraphContext &, VkQueryPool & )noexcept;
	using DropCommands = void( * )( GraphContext &, VkCommandPool & )noexcept;
	template< typename ObjectT, typename DropT >
	void own( ContextObjectT< ObjectT > & self, ObjectT obj, DropT dtor )
	{
		self.object = obj;
		self.destroy = dtor;
	}
	void ownQueries( ContextObjectT< VkQueryPool > & self, GraphContext & ctx, VkQueryPool obj, DropQueries dtor )
	{
		own( self, obj, dtor );
	}
	void ownCommands( ContextObjectT< VkCommandPool > & self, GraphContext & ctx, VkCommandPool obj, DropCommands dtor )
	{
		own( self, obj, dtor );
	}
	// Deferred releases.
	void later( DeletionQueue & self, DeletionQueue::DtorFunc func )
	{
		self.m_toDelete.push_back( func );
	}
	void laterDone( DeletionQueue & self, GraphContext & context )
	{
		auto due = self.m_toDelete;
		self.m_toDelete.clear();
		for ( auto & func : due )
			func( context );
	}
	auto dropPipeline( PipelineHolder & self, VkPipelineShaderStageCreateInfoArray const & program, uint32_t index )
	{
		if ( self.m_pipelines.size() == 1u )
			index = 0u;
		auto old = self.m_pipelines[index];
		return [old]( GraphContext & context )
		{
			crg::GraphContext::stUnregisterObject( context, old );
			context.vkDestroyPipeline( context.device, old, context.allocator );
		};
	}
}
