// Reference models: timers and their queries.
#include "spec.hpp"

namespace spec
{
	void timerBorrow( FramePassTimer & self, GraphContext & context, std::string const & name, TimerScope scope, VkQueryPool pool, uint32_t & offset )
	{
		self.m_scope = scope;
		self.m_name = name;
		self.m_timerQueries = pool;
		self.m_ownPool = false;
		self.m_queries[0] = FramePassTimer::Query{ offset, false, false };
		self.m_queries[1] = FramePassTimer::Query{ offset + 2u, false, false };
		self.m_cpuTime = {};
		self.m_gpuTime = {};
		offset += 4u;
	}
	void timerOwn( FramePassTimer & self, GraphContext & context, std::string const & name, TimerScope scope )
	{
		self.m_scope = scope;
		self.m_name = name;
		self.m_timerQueries = createQueryPool( context, name, 4u );
		self.m_ownPool = true;
		self.m_queries[0] = FramePassTimer::Query{ 0u, false, false };
		self.m_queries[1] = FramePassTimer::Query{ 2u, false, false };
		self.m_cpuTime = {};
		self.m_gpuTime = {};
	}
	void timerDestroy( FramePassTimer & self )
	{
		if ( self.m_ownPool && self.m_timerQueries )
		{
			crg::GraphContext::stUnregisterObject( self.m_context, self.m_timerQueries );
			self.m_context.vkDestroyQueryPool( self.m_context.device, self.m_timerQueries, self.m_context.allocator );
		}
	}
	void timerNotify( FramePassTimer & self, uint32_t )
	{
		self.m_queries[0].started = true;
	}
	void timerReset( FramePassTimer & self )
	{
		self.m_cpuTime = {};
		self.m_gpuTime = {};
	}
	void timerBegin( FramePassTimer & self, VkCommandBuffer cmd )
	{
		auto old = self.m_queries[0];
		self.m_queries[0] = self.m_queries[1];
		self.m_queries[1] = old;
		self.m_context.vkCmdResetQueryPool( cmd, self.m_timerQueries, self.m_queries[0].offset, 2u );
		self.m_context.vkCmdWriteTimestamp( cmd, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, self.m_timerQueries, self.m_queries[0].offset );
	}
	void timerEnd( FramePassTimer & self, VkCommandBuffer cmd )
	{
		self.m_context.vkCmdWriteTimestamp( cmd, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, self.m_timerQueries, self.m_queries[0].offset + 1u );
		self.m_queries[0].written = true;
	}
	void timerRetrieve( FramePassTimer & self )
	{
		auto & query = self.m_queries[0];
		self.m_gpuTime = Nanoseconds{};
		if ( query.started && query.written )
		{
			std::array< uint64_t, 2u > values{ 0u, 0u };
			self.m_context.vkGetQueryPoolResults( self.m_context.device, self.m_timerQueries, query.offset, 2u
				, sizeof( values ), values.data(), sizeof( uint64_t ), VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
			self.m_gpuTime += Nanoseconds{ uint64_t( float( values[1] - values[0] ) * self.m_context.properties.limits.timestampPeriod ) };
			query.started = false;
			query.written = false;
		}
	}
	void blockCreate( FramePassTimerBlock & self, FramePassTimer & timer )
	{
		self.m_timer = &timer;
	}
	void blockMove( FramePassTimerBlock & self, FramePassTimerBlock & rhs )
	{
		self.m_timer = rhs.m_timer;
		rhs.m_timer = nullptr;
	}
	void blockDestroy( FramePassTimerBlock & self )
	{
		if ( self.m_timer )
			self.m_timer->stop();
	}
}
