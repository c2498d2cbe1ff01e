// Reference models: the attachments a pass declares, what it depends on.
#include "spec.hpp"
#include <RenderGraph/FramePassGroup.hpp>
#include "FramePass.cpp"

// the templates of the pass are analysed for one view and for several
namespace crg
{
#define VIEWS( f ) \
	template void FramePass::f< ImageViewId >( ImageViewId ); \
	template void FramePass::f< ImageViewIdArray >( ImageViewIdArray );
#define VIEWS2( f, T ) \
	template void FramePass::f< ImageViewId >( ImageViewId, T ); \
	template void FramePass::f< ImageViewIdArray >( ImageViewIdArray, T );
	VIEWS( addInputColourView )
	VIEWS2( addInOutColourView, VkPipelineColorBlendAttachmentState )
	VIEWS2( addOutputColourView, VkClearValue )
	VIEWS( addInputDepthView )
	VIEWS( addInOutDepthView )
	VIEWS2( addOutputDepthView, VkClearValue )
	VIEWS( addInputDepthStencilView )
	VIEWS( addInOutDepthStencilView )
	VIEWS2( addOutputDepthStencilView, VkClearValue )
	VIEWS( addInputStencilView )
	VIEWS( addInOutStencilView )
	VIEWS2( addOutputStencilView, VkClearValue )
}

namespace spec
{
	using AF = Attachment::Flag;
	using IF = ImageAttachment::Flag;
	using BF = BufferAttachment::Flag;

	inline void useBuffer( FramePass & self, uint16_t use, BF kind, Buffer const & buffer, VkBufferView view, uint32_t binding, VkDeviceSize offset, VkDeviceSize range, AccessState access, char const * suffix )
	{
		self.buffers.push_back( Attachment{ use, self, binding, fpass::adjustName( self, buffer.name ) + suffix, uint16_t( kind ), buffer, view, offset, range, access } );
	}
	void implicitBuffer( FramePass & self, Buffer b, VkDeviceSize o, VkDeviceSize r, AccessState access ) { useBuffer( self, uint16_t( AF::Input ), BF::Transition, b, {}, InvalidBindingId, o, r, access, "/ImplB" ); }
	void uniformBuffer( FramePass & self, Buffer b, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Input ), BF::Uniform, b, {}, binding, o, r, {}, "/UB" ); }
	void inputStorageBuffer( FramePass & self, Buffer b, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Input ), BF::Storage, b, {}, binding, o, r, {}, "/ISB" ); }
	void outputStorageBuffer( FramePass & self, Buffer b, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Output ), BF::Storage, b, {}, binding, o, r, {}, "/OSB" ); }
	void clearableStorageBuffer( FramePass & self, Buffer b, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Output ) | uint16_t( AF::Clearable ), BF::Storage, b, {}, binding, o, r, {}, "/OSB" ); }
	void inOutStorageBuffer( FramePass & self, Buffer b, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::InOut ), BF::Storage, b, {}, binding, o, r, {}, "/IOSB" ); }
	void implicitBufferView( FramePass & self, Buffer b, VkBufferView v, VkDeviceSize o, VkDeviceSize r, AccessState access ) { useBuffer( self, uint16_t( AF::Input ), BF::TransitionView, b, v, InvalidBindingId, o, r, access, "/ImplBV" ); }
	void uniformBufferView( FramePass & self, Buffer b, VkBufferView v, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Input ), BF::UniformView, b, v, binding, o, r, {}, "/UBV" ); }
	void inputStorageBufferView( FramePass & self, Buffer b, VkBufferView v, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Input ), BF::StorageView, b, v, binding, o, r, {}, "/ISBV" ); }
	void outputStorageBufferView( FramePass & self, Buffer b, VkBufferView v, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Output ), BF::StorageView, b, v, binding, o, r, {}, "/OSBV" ); }
	void clearableStorageBufferView( FramePass & self, Buffer b, VkBufferView v, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Output ) | uint16_t( AF::Clearable ), BF::StorageView, b, v, binding, o, r, {}, "/OSBV" ); }
	void inOutStorageBufferView( FramePass & self, Buffer b, VkBufferView v, uint32_t binding, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::InOut ), BF::StorageView, b, v, binding, o, r, {}, "/IOSBV" ); }
	void transferInputBuffer( FramePass & self, Buffer b, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Input ), BF::Transfer, b, {}, InvalidBindingId, o, r, {}, "/ITB" ); }
	void transferOutputBuffer( FramePass & self, Buffer b, VkDeviceSize o, VkDeviceSize r ) { useBuffer( self, uint16_t( AF::Output ), BF::Transfer, b, {}, InvalidBindingId, o, r, {}, "/OTB" ); }
	void transferInOutBuffer( FramePass & self, Buffer b, VkDeviceSize o, VkDeviceSize r, AF more ) { useBuffer( self, uint16_t( uint16_t( AF::InOut ) | uint16_t( more ) ), BF::Transfer, b, {}, InvalidBindingId, o, r, {}, "/IOTB" ); }

	struct Ops
	{
		VkAttachmentLoadOp load;
		VkAttachmentStoreOp store;
		VkAttachmentLoadOp stencilLoad;
		VkAttachmentStoreOp stencilStore;
	};
	inline VkAttachmentLoadOp loads( uint16_t use )
	{
		return ( use & uint16_t( AF::Input ) ) ? VK_ATTACHMENT_LOAD_OP_LOAD : VK_ATTACHMENT_LOAD_OP_CLEAR;
	}
	inline VkAttachmentStoreOp stores( uint16_t use )
	{
		return ( use & uint16_t( AF::Output ) ) ? VK_ATTACHMENT_STORE_OP_STORE : VK_ATTACHMENT_STORE_OP_DONT_CARE;
	}
	inline Attachment image( FramePass & self, uint16_t use, uint16_t kind, ImageViewIdArray const & views, uint32_t binding, Ops ops, SamplerDesc const & sampler, VkClearValue clear, VkPipelineColorBlendAttachmentState blend, VkImageLayout layout, std::string const & suffix )
	{
		return Attachment{ use, self, binding, fpass::adjustName( self, views.front().data->name ) + suffix, kind, views, ops.load, ops.store, ops.stencilLoad, ops.stencilStore, sampler, clear, blend, layout };
	}
	inline Ops none()
	{
		return Ops{ VK_ATTACHMENT_LOAD_OP_DONT_CARE, VK_ATTACHMENT_STORE_OP_DONT_CARE, VK_ATTACHMENT_LOAD_OP_DONT_CARE, VK_ATTACHMENT_STORE_OP_DONT_CARE };
	}
	// images a shader, a transfer or something outside of the graph uses: after those already there
	inline void useImage( FramePass & self, uint16_t use, uint16_t kind, ImageViewIdArray const & views, uint32_t binding, VkImageLayout layout, char const * suffix )
	{
		self.images.push_back( image( self, use, kind, views, binding, none(), SamplerDesc{}, VkClearValue{}, VkPipelineColorBlendAttachmentState{}, layout, suffix ) );
	}
	void sampled( FramePass & self, ImageViewIdArray views, uint32_t binding, SamplerDesc sampler )
	{
		self.images.push_back( image( self, uint16_t( AF::Input ), uint16_t( IF::Sampled ), views, binding, none(), sampler, VkClearValue{}, VkPipelineColorBlendAttachmentState{}, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, "/Spl" ) );
	}
	void implicitColour( FramePass & self, ImageViewIdArray views, VkImageLayout layout ) { useImage( self, uint16_t( AF::Input ), uint16_t( IF::Transition ), views, InvalidBindingId, layout, "/Impl" ); }
	void implicitDepth( FramePass & self, ImageViewIdArray views, VkImageLayout layout ) { useImage( self, uint16_t( AF::Input ), uint16_t( IF::Transition ) | uint16_t( IF::Depth ), views, InvalidBindingId, layout, "/Impl" ); }
	void implicitDepthStencil( FramePass & self, ImageViewIdArray views, VkImageLayout layout ) { useImage( self, uint16_t( AF::Input ), uint16_t( IF::Transition ) | uint16_t( IF::Depth ) | uint16_t( IF::Stencil ), views, InvalidBindingId, layout, "/Impl" ); }
	void inputStorage( FramePass & self, ImageViewIdArray views, uint32_t binding ) { useImage( self, uint16_t( AF::Input ), uint16_t( IF::Storage ), views, binding, VK_IMAGE_LAYOUT_GENERAL, "/IStr" ); }
	void outputStorage( FramePass & self, ImageViewIdArray views, uint32_t binding ) { useImage( self, uint16_t( AF::Output ), uint16_t( IF::Storage ), views, binding, VK_IMAGE_LAYOUT_GENERAL, "/OStr" ); }
	void clearableStorage( FramePass & self, ImageViewIdArray views, uint32_t binding ) { useImage( self, uint16_t( AF::Output ) | uint16_t( AF::Clearable ), uint16_t( IF::Storage ), views, binding, VK_IMAGE_LAYOUT_GENERAL, "/COStr" ); }
	void inOutStorage( FramePass & self, ImageViewIdArray views, uint32_t binding ) { useImage( self, uint16_t( AF::InOut ), uint16_t( IF::Storage ), views, binding, VK_IMAGE_LAYOUT_GENERAL, "/IOStr" ); }
	void transferInput( FramePass & self, ImageViewIdArray views ) { useImage( self, uint16_t( AF::Input ), uint16_t( IF::Transfer ), views, InvalidBindingId, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, "/It" ); }
	void transferOutput( FramePass & self, ImageViewIdArray views ) { useImage( self, uint16_t( AF::Output ), uint16_t( IF::Transfer ), views, InvalidBindingId, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, "/Ot" ); }
	void transferInOut( FramePass & self, ImageViewIdArray views, AF more ) { useImage( self, uint16_t( uint16_t( AF::InOut ) | uint16_t( more ) ), uint16_t( IF::Transfer ), views, InvalidBindingId, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, "/IOt" ); }
	// one view is an array of one view
	void sampledOne( FramePass & self, ImageViewId view, uint32_t binding, SamplerDesc sampler ) { sampled( self, { view }, binding, sampler ); }
	void implicitColourOne( FramePass & self, ImageViewId view, VkImageLayout layout ) { implicitColour( self, { view }, layout ); }
	void implicitDepthOne( FramePass & self, ImageViewId view, VkImageLayout layout ) { implicitDepth( self, { view }, layout ); }
	void implicitDepthStencilOne( FramePass & self, ImageViewId view, VkImageLayout layout ) { implicitDepthStencil( self, { view }, layout ); }
	void inputStorageOne( FramePass & self, ImageViewId view, uint32_t binding ) { inputStorage( self, { view }, binding ); }
	void outputStorageOne( FramePass & self, ImageViewId view, uint32_t binding ) { outputStorage( self, { view }, binding ); }
	void clearableStorageOne( FramePass & self, ImageViewId view, uint32_t binding ) { clearableStorage( self, { view }, binding ); }
	void inOutStorageOne( FramePass & self, ImageViewId view, uint32_t binding ) { inOutStorage( self, { view }, binding ); }
	void transferInputOne( FramePass & self, ImageViewId view ) { transferInput( self, { view } ); }
	void transferOutputOne( FramePass & self, ImageViewId view ) { transferOutput( self, { view } ); }
	void transferInOutOne( FramePass & self, ImageViewId view, AF more ) { transferInOut( self, { view }, more ); }

	// colours go after the images already there, depth and stencil before them
	inline void colour( FramePass & self, AF use, ImageViewIdArray const & views, VkClearValue clear, VkPipelineColorBlendAttachmentState blend, char const * suffix )
	{
		auto u = uint16_t( use );
		self.images.push_back( image( self, u, 0u, views, 0u, Ops{ loads( u ), stores( u ), VK_ATTACHMENT_LOAD_OP_DONT_CARE, VK_ATTACHMENT_STORE_OP_DONT_CARE }, SamplerDesc{}, clear, blend, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, suffix ) );
	}
	inline void depthStencil( FramePass & self, AF use, IF kind, ImageViewIdArray const & views, VkClearValue clear, char const * suffix )
	{
		auto u = uint16_t( use );
		auto k = uint16_t( kind );
		Ops ops = none();
		if ( k & uint16_t( IF::Depth ) )
		{
			ops.load = loads( u );
			ops.store = stores( u );
		}
		if ( k & uint16_t( IF::Stencil ) )
		{
			ops.stencilLoad = loads( u );
			ops.stencilStore = stores( u );
			if ( u & uint16_t( AF::Input ) )
				k = uint16_t( k | uint16_t( IF::StencilInput ) );
			if ( u & uint16_t( AF::Output ) )
				k = uint16_t( k | uint16_t( IF::StencilOutput ) );
		}
		self.images.insert( self.images.begin(), image( self, u, k, views, 0u, ops, SamplerDesc{}, clear, VkPipelineColorBlendAttachmentState{}, VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, suffix ) );
	}
	void inputColour( FramePass & self, ImageViewIdArray views ) { colour( self, AF::Input, views, {}, DefaultBlendState, "/Ic" ); }
	void inOutColour( FramePass & self, ImageViewIdArray views, VkPipelineColorBlendAttachmentState blend ) { colour( self, AF::InOut, views, {}, blend, "/IOc" ); }
	void outputColour( FramePass & self, ImageViewIdArray views, VkClearValue clear ) { colour( self, AF::Output, views, clear, DefaultBlendState, "/Oc" ); }
	void inputDepth( FramePass & self, ImageViewIdArray views ) { depthStencil( self, AF::Input, IF::Depth, views, {}, "/Id" ); }
	void inOutDepth( FramePass & self, ImageViewIdArray views ) { depthStencil( self, AF::InOut, IF::Depth, views, {}, "/IOd" ); }
	void outputDepth( FramePass & self, ImageViewIdArray views, VkClearValue clear ) { depthStencil( self, AF::Output, IF::Depth, views, clear, "/Od" ); }
	void inputDepthStencil( FramePass & self, ImageViewIdArray views ) { depthStencil( self, AF::Input, IF::DepthStencil, views, {}, "/Ids" ); }
	void inOutDepthStencil( FramePass & self, ImageViewIdArray views ) { depthStencil( self, AF::InOut, IF::DepthStencil, views, {}, "/IOds" ); }
	void outputDepthStencil( FramePass & self, ImageViewIdArray views, VkClearValue clear ) { depthStencil( self, AF::Output, IF::DepthStencil, views, clear, "/Ods" ); }
	void inputStencil( FramePass & self, ImageViewIdArray views ) { depthStencil( self, AF::Input, IF::Stencil, views, {}, "/Is" ); }
	void inOutStencil( FramePass & self, ImageViewIdArray views ) { depthStencil( self, AF::InOut, IF::Stencil, views, {}, "/IOs" ); }
	void outputStencil( FramePass & self, ImageViewIdArray views, VkClearValue clear ) { depthStencil( self, AF::Output, IF::Stencil, views, clear, "/Os" ); }
	void inputColourOne( FramePass & self, ImageViewId view ) { inputColour( self, { view } ); }
	void inOutColourOne( FramePass & self, ImageViewId view, VkPipelineColorBlendAttachmentState blend ) { inOutColour( self, { view }, blend ); }
	void outputColourOne( FramePass & self, ImageViewId view, VkClearValue clear ) { outputColour( self, { view }, clear ); }
	void inputDepthOne( FramePass & self, ImageViewId view ) { inputDepth( self, { view } ); }
	void inOutDepthOne( FramePass & self, ImageViewId view ) { inOutDepth( self, { view } ); }
	void outputDepthOne( FramePass & self, ImageViewId view, VkClearValue clear ) { outputDepth( self, { view }, clear ); }
	void inputDepthStencilOne( FramePass & self, ImageViewId view ) { inputDepthStencil( self, { view } ); }
	void inOutDepthStencilOne( FramePass & self, ImageViewId view ) { inOutDepthStencil( self, { view } ); }
	void outputDepthStencilOne( FramePass & self, ImageViewId view, VkClearValue clear ) { outputDepthStencil( self, { view }, clear ); }
	void inputStencilOne( FramePass & self, ImageViewId view ) { inputStencil( self, { view } ); }
	void inOutStencilOne( FramePass & self, ImageViewId view ) { inOutStencil( self, { view } ); }
	void outputStencilOne( FramePass & self, ImageViewId view, VkClearValue clear ) { outputStencil( self, { view }, clear ); }

	// a view over several: the smallest range covering them, or their first level or layer
	ImageViewId mergeViews( FramePass & self, ImageViewIdArray const & views, bool levels, bool layers )
	{
		ImageViewData result;
		auto & range = result.info.subresourceRange;
		for ( auto & view : views )
		{
			auto & other = view.data->info.subresourceRange;
			if ( result.image.id == 0 )
			{
				result.image = view.data->image;
				result.name = result.image.data->name;
				result.info.components = view.data->info.components;
				result.info.flags = view.data->info.flags;
				result.info.format = view.data->info.format;
				result.info.viewType = view.data->info.viewType;
				range = other;
			}
			else
			{
				auto level = std::min( other.baseMipLevel, range.baseMipLevel );
				range.levelCount = levels ? std::max( range.baseMipLevel + range.levelCount, other.baseMipLevel + other.levelCount ) - level : 1u;
				range.baseMipLevel = level;
				auto layer = std::min( other.baseArrayLayer, range.baseArrayLayer );
				range.layerCount = layers ? std::max( range.baseArrayLayer + range.layerCount, other.baseArrayLayer + other.layerCount ) - layer : 1u;
				range.baseArrayLayer = layer;
			}
			result.source.push_back( view );
		}
		if ( range.layerCount > 1u )
		{
			auto & type = result.info.viewType;
			if ( type == VK_IMAGE_VIEW_TYPE_1D )
				type = VK_IMAGE_VIEW_TYPE_1D_ARRAY;
			else if ( type == VK_IMAGE_VIEW_TYPE_CUBE && range.layerCount > 6u )
				type = VK_IMAGE_VIEW_TYPE_CUBE_ARRAY;
			else if ( type == VK_IMAGE_VIEW_TYPE_2D )
			{
				if ( ( result.image.data->info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && range.baseArrayLayer == 0u && range.layerCount % 6u == 0u )
					type = range.layerCount > 6u ? VK_IMAGE_VIEW_TYPE_CUBE_ARRAY : VK_IMAGE_VIEW_TYPE_CUBE;
				else
					type = VK_IMAGE_VIEW_TYPE_2D_ARRAY;
			}
		}
		return self.graph.createView( result );
	}
	void addPass( FramePass & self, FramePass const & pass )
	{
		self.passDepends.push_back( &pass );
	}
	void addPasses( FramePass & self, FramePassArray const & passes )
	{
		for ( auto pass : passes )
			self.passDepends.push_back( pass );
	}
	RunnablePassPtr createRunnable( FramePass const & self, GraphContext & context, RunnableGraph & graph )
	{
		return self.runnableCreator( self, context, graph );
	}
	std::string passFullName( FramePass const & self )
	{
		return self.group.getFullName() + "/" + self.m_name;
	}
	std::string passGroupName( FramePass const & self )
	{
		return self.group.getName() + "/" + self.m_name;
	}
	void passInit( FramePass & self, FramePassGroup const & group, FrameGraph & graph, uint32_t id, std::string const & name, RunnablePassCreator creator )
	{
		self.id = id;
		self.images.clear();
		self.buffers.clear();
		self.passDepends.clear();
		self.m_name = name;
		self.runnableCreator = creator;
	}
}
