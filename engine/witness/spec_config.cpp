// Reference models: configurations of the passes, and their defaults.
#include "spec.hpp"
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>

template struct crg::pp::ConfigT< std::optional >;
template struct crg::cp::ConfigT< std::optional >;
template struct crg::rq::ConfigT< std::optional >;
template struct crg::rm::ConfigT< std::optional >;
template class crg::PipelinePassBuilderT< crg::RenderQuadBuilder >;
template class crg::RenderQuadBuilderT< crg::rq::Config, crg::RenderQuadBuilder >;
template crg::GetValueCallbackT< crg::PrimitiveCountT, uint32_t > crg::makeValueCallback< crg::PrimitiveCountT, uint32_t >( std::function< uint32_t() > );

namespace spec
{
	using Program = VkPipelineShaderStageCreateInfoArray;
	using Programs = std::vector< VkPipelineShaderStageCreateInfoArray >;
	using Layouts = std::vector< VkDescriptorSetLayout >;

	// Programs, layouts, push constants.
	inline Programs one( Program const & v )
	{
		Programs result;
		result.push_back( v );
		return result;
	}
	inline Layouts one( VkDescriptorSetLayout v )
	{
		Layouts result;
		result.push_back( v );
		return result;
	}
	inline VkPushConstantRangeArray one( VkPushConstantRange const & v )
	{
		VkPushConstantRangeArray result;
		result.push_back( v );
		return result;
	}
	auto & cfgPProgram( pp::Config & self, Program v ) { self.m_programs = one( v ); return self; }
	auto & cfgPPrograms( pp::Config & self, Programs v ) { self.m_programs = v; return self; }
	auto & cfgPCreator( pp::Config & self, ProgramCreator v ) { self.m_programCreator = v; return self; }
	auto & cfgPLayout( pp::Config & self, VkDescriptorSetLayout v ) { self.m_layouts = one( v ); return self; }
	auto & cfgPLayouts( pp::Config & self, Layouts v ) { self.m_layouts = v; return self; }
	auto & cfgPPush( pp::Config & self, VkPushConstantRange v ) { self.m_pushConstants = one( v ); return self; }
	auto & cfgPPushes( pp::Config & self, VkPushConstantRangeArray v ) { self.m_pushConstants = v; return self; }

	// Compute passes.
	auto & cfgCProgram( cp::Config & self, Program v ) { self.m_baseConfig.m_programs = one( v ); return self; }
	auto & cfgCPrograms( cp::Config & self, Programs v ) { self.m_baseConfig.m_programs = v; return self; }
	auto & cfgCCreator( cp::Config & self, ProgramCreator v ) { self.m_baseConfig.m_programCreator = v; return self; }
	auto & cfgCLayout( cp::Config & self, VkDescriptorSetLayout v ) { self.m_baseConfig.m_layouts = one( v ); return self; }
	auto & cfgCLayouts( cp::Config & self, Layouts v ) { self.m_baseConfig.m_layouts = v; return self; }
	auto & cfgCPush( cp::Config & self, VkPushConstantRange v ) { self.m_baseConfig.m_pushConstants = one( v ); return self; }
	auto & cfgCPushes( cp::Config & self, VkPushConstantRangeArray v ) { self.m_baseConfig.m_pushConstants = v; return self; }
	auto & cfgCBase( cp::Config & self, pp::Config v ) { self.m_baseConfig = v; return self; }
	auto & cfgCIndex( cp::Config & self, uint32_t const * config )
	{
		self.m_getPassIndex = RunnablePass::GetPassIndexCallback{ [config](){ return *config; } };
		return self;
	}
	auto & cfgCEnabled( cp::Config & self, bool const * v ) { self.m_enabled = v; return self; }
	auto & cfgCGetIndex( cp::Config & self, RunnablePass::GetPassIndexCallback v ) { self.m_getPassIndex = v; return self; }
	auto & cfgCIsEnabled( cp::Config & self, RunnablePass::IsEnabledCallback v ) { self.m_isEnabled = v; return self; }
	auto & cfgCRecord( cp::Config & self, RunnablePass::RecordCallback v ) { self.m_recordInto = v; return self; }
	auto & cfgCInitialise( cp::Config & self, RunnablePass::InitialiseCallback v ) { self.m_initialise = v; return self; }
	auto & cfgCEnd( cp::Config & self, RunnablePass::RecordCallback v ) { self.m_end = v; return self; }
	auto & cfgCX( cp::Config & self, uint32_t v ) { self.m_groupCountX = v; return self; }
	auto & cfgCY( cp::Config & self, uint32_t v ) { self.m_groupCountY = v; return self; }
	auto & cfgCZ( cp::Config & self, uint32_t v ) { self.m_groupCountZ = v; return self; }
	auto & cfgCGetX( cp::Config & self, cp::GetGroupCountCallback v ) { self.m_getGroupCountX = v; return self; }
	auto & cfgCGetY( cp::Config & self, cp::GetGroupCountCallback v ) { self.m_getGroupCountY = v; return self; }
	auto & cfgCGetZ( cp::Config & self, cp::GetGroupCountCallback v ) { self.m_getGroupCountZ = v; return self; }
	auto & cfgCIndirect( cp::Config & self, IndirectBuffer v ) { self.m_indirectBuffer = v; return self; }

	// Full-screen passes.
	auto & cfgQProgram( rq::Config & self, Program v ) { self.m_baseConfig.m_programs = one( v ); return self; }
	auto & cfgQPrograms( rq::Config & self, Programs v ) { self.m_baseConfig.m_programs = v; return self; }
	auto & cfgQCreator( rq::Config & self, ProgramCreator v ) { self.m_baseConfig.m_programCreator = v; return self; }
	auto & cfgQLayout( rq::Config & self, VkDescriptorSetLayout v ) { self.m_baseConfig.m_layouts = one( v ); return self; }
	auto & cfgQLayouts( rq::Config & self, Layouts v ) { self.m_baseConfig.m_layouts = v; return self; }
	auto & cfgQBase( rq::Config & self, pp::Config v ) { self.m_baseConfig = v; return self; }
	auto & cfgQTexcoord( rq::Config & self, Texcoord v ) { self.m_texcoordConfig = v; return self; }
	auto & cfgQSize( rq::Config & self, VkExtent2D v ) { self.m_renderSize = v; return self; }
	auto & cfgQPosition( rq::Config & self, VkOffset2D v ) { self.m_renderPosition = v; return self; }
	auto & cfgQDepth( rq::Config & self, VkPipelineDepthStencilStateCreateInfo v ) { self.m_depthStencilState = v; return self; }
	auto & cfgQIndex( rq::Config & self, uint32_t const * v ) { self.m_passIndex = v; return self; }
	auto & cfgQEnabled( rq::Config & self, bool const * v ) { self.m_enabled = v; return self; }
	auto & cfgQIsEnabled( rq::Config & self, RunnablePass::IsEnabledCallback v ) { self.m_isEnabled = v; return self; }
	auto & cfgQRecord( rq::Config & self, RunnablePass::RecordCallback v ) { self.m_recordInto = v; return self; }
	auto & cfgQEnd( rq::Config & self, RunnablePass::RecordCallback v ) { self.m_end = v; return self; }
	auto & cfgQInstances( rq::Config & self, uint32_t v ) { self.m_instances = v; return self; }
	auto & cfgQIndirect( rq::Config & self, IndirectBuffer v ) { self.m_indirectBuffer = v; return self; }

	// Mesh passes.
	auto & cfgMProgram( rm::Config & self, Program v ) { self.m_baseConfig.m_programs = one( v ); return self; }
	auto & cfgMPrograms( rm::Config & self, Programs v ) { self.m_baseConfig.m_programs = v; return self; }
	auto & cfgMCreator( rm::Config & self, ProgramCreator v ) { self.m_baseConfig.m_programCreator = v; return self; }
	auto & cfgMLayout( rm::Config & self, VkDescriptorSetLayout v ) { self.m_baseConfig.m_layouts = one( v ); return self; }
	auto & cfgMLayouts( rm::Config & self, Layouts v ) { self.m_baseConfig.m_layouts = v; return self; }
	auto & cfgMBase( rm::Config & self, pp::Config v ) { self.m_baseConfig = v; return self; }
	auto & cfgMSize( rm::Config & self, VkExtent2D v ) { self.m_renderSize = v; return self; }
	auto & cfgMPosition( rm::Config & self, VkOffset2D v ) { self.m_renderPosition = v; return self; }
	auto & cfgMDepth( rm::Config & self, VkPipelineDepthStencilStateCreateInfo v ) { self.m_depthStencilState = v; return self; }
	auto & cfgMGetIndex( rm::Config & self, RunnablePass::GetPassIndexCallback v ) { self.m_getPassIndex = v; return self; }
	auto & cfgMIsEnabled( rm::Config & self, RunnablePass::IsEnabledCallback v ) { self.m_isEnabled = v; return self; }
	auto & cfgMRecord( rm::Config & self, RunnablePass::RecordCallback v ) { self.m_recordInto = v; return self; }
	auto & cfgMEnd( rm::Config & self, RunnablePass::RecordCallback v ) { self.m_end = v; return self; }
	auto & cfgMVertex( rm::Config & self, VertexBuffer v ) { self.m_vertexBuffer = std::move( v ); return self; }
	auto & cfgMIndexes( rm::Config & self, IndexBuffer v ) { self.m_indexBuffer = v; return self; }
	auto & cfgMIndirect( rm::Config & self, IndirectBuffer v ) { self.m_indirectBuffer = v; return self; }
	auto & cfgMPrimitives( rm::Config & self, GetPrimitiveCountCallback v ) { self.m_getPrimitiveCount = v; return self; }
	auto & cfgMVertices( rm::Config & self, GetVertexCountCallback v ) { self.m_getVertexCount = v; return self; }
	auto & cfgMIndexType( rm::Config & self, GetIndexTypeCallback v ) { self.m_getIndexType = v; return self; }
	auto & cfgMCull( rm::Config & self, GetCullModeCallback v ) { self.m_getCullMode = v; return self; }

	// Any pass.
	auto & cfgRImplicit( ru::Config & self, ImageViewId view, RecordContext::ImplicitAction v )
	{
		if ( self.implicitActions.find( view ) == self.implicitActions.end() )
			self.implicitActions.emplace( view, v );
		return self;
	}
	auto & cfgRBefore( ru::Config & self, RecordContext::ImplicitAction v ) { self.prePassActions.push_back( v ); return self; }
	auto & cfgRAfter( ru::Config & self, RecordContext::ImplicitAction v ) { self.postPassActions.push_back( v ); return self; }

	// Builders.
	using QuadPipeline = PipelinePassBuilderT< RenderQuadBuilder >;
	using Quad = RenderQuadBuilderT< rq::Config, RenderQuadBuilder >;
	auto & cfgBProgram( QuadPipeline & self, Program v ) { self.m_baseConfig.m_programs = one( v ); return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBPrograms( QuadPipeline & self, Programs v ) { self.m_baseConfig.m_programs = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBCreator( QuadPipeline & self, ProgramCreator v ) { self.m_baseConfig.m_programCreator = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBPush( QuadPipeline & self, VkPushConstantRange v ) { self.m_baseConfig.m_pushConstants = one( v ); return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBTexcoord( Quad & self, Texcoord v ) { self.m_config.m_texcoordConfig = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBSize( Quad & self, VkExtent2D v ) { self.m_config.m_renderSize = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBPosition( Quad & self, VkOffset2D v ) { self.m_config.m_renderPosition = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBDepth( Quad & self, VkPipelineDepthStencilStateCreateInfo v ) { self.m_config.m_depthStencilState = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBIndex( Quad & self, uint32_t const * v ) { self.m_config.m_passIndex = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBEnabled( Quad & self, bool const * v ) { self.m_config.m_enabled = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBIsEnabled( Quad & self, RunnablePass::IsEnabledCallback v ) { self.m_config.m_isEnabled = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBRecord( Quad & self, RunnablePass::RecordCallback v ) { self.m_config.m_recordInto = v; return static_cast< RenderQuadBuilder & >( self ); }
	auto & cfgBInstances( Quad & self, uint32_t v ) { self.m_config.m_instances = v; return static_cast< RenderQuadBuilder & >( self ); }
	std::unique_ptr< RenderQuad > cfgBBuild( Quad & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, ru::Config config )
	{
		auto settings = self.m_config;
		settings.m_baseConfig = self.m_baseConfig;
		return std::make_unique< RenderQuad >( pass, context, graph, config, settings );
	}
}
