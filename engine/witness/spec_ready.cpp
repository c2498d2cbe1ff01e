// Reference models: how the ready-made passes are put together.
#include "spec.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>

namespace spec
{
	using Index = RunnablePass::GetPassIndexCallback;
	using Enabled = RunnablePass::IsEnabledCallback;
	using Stage = RunnablePass::GetPipelineStateCallback;
	using Compute = RunnablePass::IsComputePassCallback;
	using Init = RunnablePass::InitialiseCallback;
	using Record = RunnablePass::RecordCallback;

	template< typename ValueT >
	ValueT configured( std::optional< ValueT > const & value )
	{
		return value ? *value : getDefaultV< ValueT >();
	}
	// The base of the pass, told what the pass is.
	template< typename PassT >
	void base( PassT & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, Init init, VkPipelineStageFlags stages, Index index, Enabled enabled, bool compute, ru::Config config )
	{
		( void )new RunnablePass{ pass, context, graph
			, RunnablePass::Callbacks{ init
				, Stage( [stages](){ return crg::getPipelineState( stages ); } )
				, [&self]( RecordContext & rc, VkCommandBuffer cmd, uint32_t i ){ self.doRecordInto( rc, cmd, i ); }
				, index, enabled
				, Compute( [compute](){ return compute; } ) }
			, config };
	}
	template< typename PassT >
	void transfer( PassT & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, Index index, Enabled enabled, ru::Config config )
	{
		base( self, pass, context, graph, defaultV< Init >, VK_PIPELINE_STAGE_TRANSFER_BIT, index, enabled, false, config );
	}
	void mkBufferCopy( BufferCopy & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, VkDeviceSize offset, VkDeviceSize range, ru::Config config, Index index, Enabled enabled )
	{
		transfer( self, pass, context, graph, index, enabled, config );
		self.m_copyOffset = offset;
		self.m_copyRange = range;
	}
	void mkBufferToImageCopy( BufferToImageCopy & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, VkOffset3D offset, VkExtent3D size, ru::Config config, Index index, Enabled enabled )
	{
		transfer( self, pass, context, graph, index, enabled, config );
		self.m_copyOffset = offset;
		self.m_copySize = size;
	}
	void mkImageToBufferCopy( ImageToBufferCopy & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, VkOffset3D offset, VkExtent3D size, ru::Config config, Index index, Enabled enabled )
	{
		transfer( self, pass, context, graph, index, enabled, config );
		self.m_copyOffset = offset;
		self.m_copySize = size;
	}
	void mkImageBlit( ImageBlit & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, VkOffset3D srcOffset, VkExtent3D srcSize, VkOffset3D dstOffset, VkExtent3D dstSize, VkFilter filter, ru::Config config, Index index, Enabled enabled )
	{
		transfer( self, pass, context, graph, index, enabled, config );
		self.m_srcOffset = srcOffset;
		self.m_srcSize = srcSize;
		self.m_dstOffset = dstOffset;
		self.m_dstSize = dstSize;
		self.m_filter = filter;
	}
	void mkImageCopy( ImageCopy & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, VkExtent3D size, VkImageLayout output, ru::Config config, Index index, Enabled enabled )
	{
		transfer( self, pass, context, graph, index, enabled, config );
		self.m_copySize = size;
		self.m_finalOutputLayout = output;
	}
	void mkImageCopyPlain( ImageCopy & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, VkExtent3D size, ru::Config config, Index index, Enabled enabled )
	{
		transfer( self, pass, context, graph, index, enabled, config );
		self.m_copySize = size;
		self.m_finalOutputLayout = VK_IMAGE_LAYOUT_UNDEFINED;
	}
	void mkGenerateMipmaps( GenerateMipmaps & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, VkImageLayout output, ru::Config config, Index index, Enabled enabled )
	{
		transfer( self, pass, context, graph, index, enabled, config );
		self.m_outputLayout = makeLayoutState( output );
	}
	void mkCompute( ComputePass & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, ru::Config const & config, cp::Config cpConfig )
	{
		base( self, pass, context, graph, [&self]( uint32_t index ){ self.doInitialise( index ); }, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT
			, Index( [&self](){ return self.doGetPassIndex(); } ), Enabled( [&self](){ return self.doIsEnabled(); } ), true, config );
		auto & c = self.m_cpConfig;
		c.initialise = configured( cpConfig.m_initialise );
		c.enabled = configured( cpConfig.m_enabled );
		c.isEnabled = cpConfig.m_isEnabled;
		c.getPassIndex = configured( cpConfig.m_getPassIndex );
		c.recordInto = configured( cpConfig.m_recordInto );
		c.end = configured( cpConfig.m_end );
		c.groupCountX = cpConfig.m_groupCountX.value_or( 1u );
		c.groupCountY = cpConfig.m_groupCountY.value_or( 1u );
		c.groupCountZ = cpConfig.m_groupCountZ.value_or( 1u );
		c.getGroupCountX = cpConfig.m_getGroupCountX;
		c.getGroupCountY = cpConfig.m_getGroupCountY;
		c.getGroupCountZ = cpConfig.m_getGroupCountZ;
		c.indirectBuffer = configured( cpConfig.m_indirectBuffer );
		( void )new PipelineHolder{ pass, context, graph, cpConfig.m_baseConfig, VK_PIPELINE_BIND_POINT_COMPUTE, config.maxPassCount };
	}
	void mkRenderPass( RenderPass & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph
		, RenderPass::Callbacks callbacks, VkExtent2D const & size, ru::Config const & config )
	{
		base( self, pass, context, graph, defaultV< Init >, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT, callbacks.getPassIndex, callbacks.isEnabled, false, config );
		self.m_rpCallbacks = callbacks;
		( void )new RenderPassHolder{ pass, context, graph, config.maxPassCount, size };
	}
	// Drawing passes can always be recorded again.
	inline ru::Config resettable( ru::Config config )
	{
		config.resettable = true;
		return config;
	}
	void mkRenderMesh( RenderMesh & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, ru::Config const & config, rm::Config rmConfig )
	{
		base( self, pass, context, graph, defaultV< Init >, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
			, Index( [&self](){ return self.m_renderMesh.getPassIndex(); } ), Enabled( [&self](){ return self.m_renderMesh.isEnabled(); } ), false, resettable( config ) );
		( void )new RenderMeshHolder{ pass, context, graph, std::move( rmConfig ), config.maxPassCount };
		( void )new RenderPassHolder{ pass, context, graph, config.maxPassCount, self.m_renderMesh.getRenderSize() };
	}
	void mkRenderQuad( RenderQuad & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, ru::Config const & config, rq::Config rqConfig )
	{
		base( self, pass, context, graph, defaultV< Init >, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
			, Index( [&self](){ return self.m_renderQuad.getPassIndex(); } ), Enabled( [&self](){ return self.m_renderQuad.isEnabled(); } ), false, resettable( config ) );
		( void )new RenderQuadHolder{ pass, context, graph, rqConfig, config.maxPassCount };
		( void )new RenderPassHolder{ pass, context, graph, config.maxPassCount, configured( rqConfig.m_renderSize ) };
	}
	void mkPassHolder( RenderPassHolder & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, uint32_t maxPassCount, VkExtent2D size )
	{
		self.m_size = size;
		self.m_passes = {};
		self.m_passes.resize( maxPassCount );
		self.m_currentPass = nullptr;
		self.m_blendAttachs = {};
		self.m_layers = 0u;
		self.m_index = 0u;
		self.m_count = 1u;
	}
	template< typename HolderT >
	void drawn( HolderT & self, VkPrimitiveTopology topology, VkCullModeFlags cull )
	{
		self.m_renderPass = {};
		self.m_viewport = VkViewport{};
		self.m_scissor = VkRect2D{};
		self.m_vpState = VkPipelineViewportStateCreateInfo{};
		self.m_blendState = VkPipelineColorBlendStateCreateInfo{};
		self.m_blendAttachs = {};
		VkPipelineInputAssemblyStateCreateInfo ia{};
		ia.sType = VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO;
		ia.topology = topology;
		self.m_iaState = ia;
		VkPipelineMultisampleStateCreateInfo ms{};
		ms.sType = VK_STRUCTURE_TYPE_PIPELINE_MULTISAMPLE_STATE_CREATE_INFO;
		ms.rasterizationSamples = VK_SAMPLE_COUNT_1_BIT;
		self.m_msState = ms;
		VkPipelineRasterizationStateCreateInfo rs{};
		rs.sType = VK_STRUCTURE_TYPE_PIPELINE_RASTERIZATION_STATE_CREATE_INFO;
		rs.polygonMode = VK_POLYGON_MODE_FILL;
		rs.cullMode = cull;
		rs.frontFace = VK_FRONT_FACE_COUNTER_CLOCKWISE;
		self.m_rsState = rs;
	}
	void mkMeshHolder( RenderMeshHolder & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, rm::Config config, uint32_t maxPassCount )
	{
		auto & c = self.m_config;
		c.renderPosition = configured( config.m_renderPosition );
		c.depthStencilState = configured( config.m_depthStencilState );
		c.getPassIndex = configured( config.m_getPassIndex );
		c.isEnabled = configured( config.m_isEnabled );
		c.recordInto = configured( config.m_recordInto );
		c.end = configured( config.m_end );
		c.getPrimitiveCount = configured( config.m_getPrimitiveCount );
		c.getVertexCount = configured( config.m_getVertexCount );
		c.getIndexType = configured( config.m_getIndexType );
		c.getCullMode = configured( config.m_getCullMode );
		c.vertexBuffer = config.m_vertexBuffer ? std::move( *config.m_vertexBuffer ) : VertexBuffer{};
		c.indexBuffer = configured( config.m_indexBuffer );
		c.indirectBuffer = configured( config.m_indirectBuffer );
		( void )new PipelineHolder{ pass, context, graph, config.m_baseConfig, VK_PIPELINE_BIND_POINT_GRAPHICS, maxPassCount };
		self.m_renderSize = configured( config.m_renderSize );
		drawn( self, VK_PRIMITIVE_TOPOLOGY_TRIANGLE_LIST, self.m_config.getCullMode() );
	}
	void mkQuadHolder( RenderQuadHolder & self, FramePass const & pass, GraphContext & context, RunnableGraph & graph, rq::Config config, uint32_t maxPassCount )
	{
		auto & c = self.m_config;
		c.texcoordConfig = configured( config.m_texcoordConfig );
		c.renderPosition = configured( config.m_renderPosition );
		c.depthStencilState = configured( config.m_depthStencilState );
		c.passIndex = configured( config.m_passIndex );
		c.enabled = configured( config.m_enabled );
		c.isEnabled = config.m_isEnabled;
		c.recordInto = configured( config.m_recordInto );
		c.end = configured( config.m_end );
		c.m_instances = config.m_instances.value_or( 1u );
		c.indirectBuffer = configured( config.m_indirectBuffer );
		( void )new PipelineHolder{ pass, context, graph, config.m_baseConfig, VK_PIPELINE_BIND_POINT_GRAPHICS, maxPassCount };
		self.m_useTexCoord = config.m_texcoordConfig.has_value();
		self.m_vertexBuffer = nullptr;
		self.m_renderSize = VkExtent2D{};
		drawn( self, VK_PRIMITIVE_TOPOLOGY_TRIANGLE_STRIP, VK_CULL_MODE_NONE );
	}
	// callbacks
	void cb2( RunnablePass::Callbacks & self, Init init, Stage stage )
	{
		self.initialise = init;
		self.getPipelineState = stage;
		self.record = getDefaultV< Record >();
		self.getPassIndex = getDefaultV< Index >();
		self.isEnabled = getDefaultV< Enabled >();
		self.isComputePass = getDefaultV< Compute >();
	}
	void cb3( RunnablePass::Callbacks & self, Init init, Stage stage, Record record )
	{
		cb2( self, init, stage );
		self.record = record;
	}
	void cb4( RunnablePass::Callbacks & self, Init init, Stage stage, Record record, Index index )
	{
		cb3( self, init, stage, record );
		self.getPassIndex = index;
	}
	void cb5( RunnablePass::Callbacks & self, Init init, Stage stage, Record record, Index index, Enabled enabled )
	{
		cb4( self, init, stage, record, index );
		self.isEnabled = enabled;
	}
	void cb6( RunnablePass::Callbacks & self, Init init, Stage stage, Record record, Index index, Enabled enabled, Compute compute )
	{
		cb5( self, init, stage, record, index, enabled );
		self.isComputePass = compute;
	}
	using Contents = RenderPass::GetSubpassContentsCallback;
	void rcb2( RenderPass::Callbacks & self, Init init, Record record )
	{
		self.initialise = init;
		self.record = record;
		self.getSubpassContents = getDefaultV< Contents >();
		self.getPassIndex = getDefaultV< Index >();
		self.isEnabled = getDefaultV< Enabled >();
	}
	void rcb3( RenderPass::Callbacks & self, Init init, Record record, Contents contents )
	{
		rcb2( self, init, record );
		self.getSubpassContents = contents;
	}
	void rcb4( RenderPass::Callbacks & self, Init init, Record record, Contents contents, Index index )
	{
		rcb3( self, init, record, contents );
		self.getPassIndex = index;
	}
	void rcb5( RenderPass::Callbacks & self, Init init, Record record, Contents contents, Index index, Enabled enabled )
	{
		rcb4( self, init, record, contents, index );
		self.isEnabled = enabled;
	}
	// What is not configured: the library's default, and what it has to be.
	void useInitialise( uint32_t index ) { getDefaultV< Init >()( index ); }
	void defInitialise( uint32_t ) {}
	void useRecord( RecordContext & context, VkCommandBuffer cb, uint32_t index ) { getDefaultV< Record >()( context, cb, index ); }
	void defRecord( RecordContext &, VkCommandBuffer, uint32_t ) {}
	PipelineState useState() { return getDefaultV< Stage >().m_callback(); }
	PipelineState defState() { return PipelineState{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT }; }
	uint32_t useIndex() { return getDefaultV< Index >().m_callback(); }
	uint32_t defIndex() { return 0u; }
	bool useEnabled() { return getDefaultV< Enabled >().m_callback(); }
	bool defEnabled() { return true; }
	bool useCompute() { return getDefaultV< Compute >().m_callback(); }
	bool defCompute() { return false; }
	uint32_t useGroups() { return getDefaultV< cp::GetGroupCountCallback >().m_callback(); }
	uint32_t defGroups() { return 0u; }
	uint32_t usePrimitives() { return getDefaultV< GetPrimitiveCountCallback >().m_callback(); }
	uint32_t defPrimitives() { return 1u; }
	uint32_t useVertices() { return getDefaultV< GetVertexCountCallback >().m_callback(); }
	uint32_t defVertices() { return 1u; }
	VkIndexType useIndices() { return getDefaultV< GetIndexTypeCallback >().m_callback(); }
	VkIndexType defIndices() { return VK_INDEX_TYPE_UINT32; }
	VkCullModeFlags useCulling() { return getDefaultV< GetCullModeCallback >().m_callback(); }
	VkCullModeFlags defCulling() { return VK_CULL_MODE_NONE; }
	VkSubpassContents useContents() { return getDefaultV< Contents >().m_callback(); }
	VkSubpassContents defContents() { return VK_SUBPASS_CONTENTS_INLINE; }
	VkExtent2D useExtent() { return getDefaultV< VkExtent2D >(); }
	VkExtent2D defExtent() { return VkExtent2D{ 0u, 0u }; }
	VkOffset2D useOffset() { return getDefaultV< VkOffset2D >(); }
	VkOffset2D defOffset() { return VkOffset2D{ 0, 0 }; }
	uint32_t const * useIndexPtr() { return getDefaultV< uint32_t const * >(); }
	uint32_t const * defIndexPtr() { return nullptr; }
	bool const * useEnabledPtr() { return getDefaultV< bool const * >(); }
	bool const * defEnabledPtr() { return nullptr; }
	IndirectBuffer useIndirect() { return getDefaultV< IndirectBuffer >(); }
	IndirectBuffer defIndirect() { return IndirectBuffer{ Buffer{ VkBuffer{}, std::string{} }, 0u }; }
	Texcoord useTexcoord() { return getDefaultV< Texcoord >(); }
	Texcoord defTexcoord() { return Texcoord{ false, false }; }
	VkPipelineDepthStencilStateCreateInfo useDepth() { return getDefaultV< VkPipelineDepthStencilStateCreateInfo >(); }
	VkPipelineDepthStencilStateCreateInfo defDepth()
	{
		VkPipelineDepthStencilStateCreateInfo result{};
		result.sType = VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO;
		return result;
	}
	VkPipelineVertexInputStateCreateInfo useInput() { return getDefaultV< VkPipelineVertexInputStateCreateInfo >(); }
	VkPipelineVertexInputStateCreateInfo defInput()
	{
		VkPipelineVertexInputStateCreateInfo result{};
		result.sType = VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO;
		return result;
	}
	size_t usePrograms() { return getDefaultV< std::vector< VkPipelineShaderStageCreateInfoArray > >().size(); }
	size_t defPrograms() { return 0u; }
	size_t useLayouts() { return getDefaultV< std::vector< VkDescriptorSetLayout > >().size(); }
	size_t defLayouts() { return 0u; }
	size_t useConstants() { return getDefaultV< VkPushConstantRangeArray >().size(); }
	size_t defConstants() { return 0u; }
	VkBuffer useVertexBuffer() { return getDefaultV< VertexBuffer >().buffer.buffer( 0u ); }
	VkBuffer defVertexBuffer() { return VkBuffer{}; }
	VkBuffer useIndexBuffer() { return getDefaultV< IndexBuffer >().buffer.buffer( 0u ); }
	VkBuffer defIndexBuffer() { return VkBuffer{}; }
	ru::Config useRun() { return getDefaultV< ru::Config >(); }
	ru::Config defRun()
	{
		ru::Config result{};
		result.maxPassCount = 1u;
		result.resettable = false;
		result.prePassActions = {};
		result.postPassActions = {};
		result.implicitActions.clear();
		return result;
	}
}
