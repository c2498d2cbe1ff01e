// Reference models: what an attachment's role means to Vulkan.
#include "spec.hpp"
#include <RenderGraph/WriteDescriptorSet.hpp>

namespace spec
{
	inline bool has( ImageAttachment const & a, ImageAttachment::Flag f )
	{
		return ( a.flags & uint16_t( f ) ) == uint16_t( f );
	}
	inline bool has( BufferAttachment const & a, BufferAttachment::Flag f )
	{
		return ( a.flags & uint16_t( f ) ) == uint16_t( f );
	}
	inline bool has( Attachment const & a, Attachment::Flag f )
	{
		return ( a.flags & uint16_t( f ) ) == uint16_t( f );
	}
	using IF = ImageAttachment::Flag;
	using BF = BufferAttachment::Flag;
	using AF = Attachment::Flag;
	// the role of an image, in order of precedence
	enum class Role
	{
		Sampled,
		Transition,
		Storage,
		Transfer,
		Depth,
		Stencil,
		DepthStencil,
		Colour,
	};
	inline Role role( ImageAttachment const & a )
	{
		if ( has( a, IF::Sampled ) )
			return Role::Sampled;
		if ( has( a, IF::Transition ) )
			return Role::Transition;
		if ( has( a, IF::Storage ) )
			return Role::Storage;
		if ( has( a, IF::Transfer ) )
			return Role::Transfer;
		if ( has( a, IF::Depth ) )
			return has( a, IF::Stencil ) ? Role::DepthStencil : Role::Depth;
		return has( a, IF::Stencil ) ? Role::Stencil : Role::Colour;
	}
	VkImageLayout imageLayout( ImageAttachment const & self, bool separate, bool isInput, bool isOutput )
	{
		auto r = role( self );
		switch ( r )
		{
		case Role::Transition:
			return self.wantedLayout;
		case Role::Storage:
			return VK_IMAGE_LAYOUT_GENERAL;
		case Role::Transfer:
			return isOutput ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
				: isInput ? VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
				: VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		case Role::Colour:
			return VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
		case Role::Depth:
			if ( isOutput )
				return separate ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
			if ( isInput )
				return separate ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
			return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		case Role::Stencil:
			if ( isOutput && has( self, IF::StencilOutput ) )
				return separate ? VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
			if ( isInput && has( self, IF::StencilInput ) )
				return separate ? VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
			return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		case Role::DepthStencil:
			return isOutput ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL
				: isInput ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL
				: VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		default:
			return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		}
	}
	inline VkAccessFlags either( bool isInput, VkAccessFlags read, bool isOutput, VkAccessFlags write )
	{
		return ( isInput ? read : 0u ) | ( isOutput ? write : 0u );
	}
	VkAccessFlags imageAccess( ImageAttachment const & self, bool isInput, bool isOutput )
	{
		switch ( role( self ) )
		{
		case Role::Sampled:
			return VK_ACCESS_SHADER_READ_BIT;
		case Role::Transition:
			return crg::getAccessMask( self.wantedLayout );
		case Role::Storage:
			return either( isInput, VK_ACCESS_SHADER_READ_BIT, isOutput, VK_ACCESS_SHADER_WRITE_BIT );
		case Role::Transfer:
			return either( isInput, VK_ACCESS_TRANSFER_READ_BIT, isOutput, VK_ACCESS_TRANSFER_WRITE_BIT );
		case Role::Colour:
			return either( isInput, VK_ACCESS_COLOR_ATTACHMENT_READ_BIT, isOutput, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT );
		default:
			return either( isInput, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, isOutput, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT );
		}
	}
	VkPipelineStageFlags imageStage( ImageAttachment const & self, bool isCompute )
	{
		switch ( role( self ) )
		{
		case Role::Sampled:
		case Role::Storage:
			return isCompute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
		case Role::Transition:
			return crg::getStageMask( self.wantedLayout );
		case Role::Transfer:
			return VK_PIPELINE_STAGE_TRANSFER_BIT;
		case Role::Colour:
			return VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
		default:
			return VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
		}
	}
	VkDescriptorType imageDescriptor( ImageAttachment const & self )
	{
		return has( self, IF::Storage ) ? VK_DESCRIPTOR_TYPE_STORAGE_IMAGE : VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
	}
	ImageViewId imageView( ImageAttachment const & self, uint32_t index )
	{
		return self.views[self.views.size() == 1u ? 0u : index];
	}
	VkDescriptorType bufferDescriptor( BufferAttachment const & self )
	{
		bool view = has( self, BF::View );
		if ( has( self, BF::Uniform ) )
			return view ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER
				: VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
		return ( view && has( self, BF::Storage ) ) ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
	}
	VkAccessFlags bufferAccess( BufferAttachment const & self, bool isInput, bool isOutput )
	{
		if ( has( self, BF::Transition ) )
			return self.wantedAccess.access;
		if ( has( self, BF::Storage ) )
			return either( isInput, VK_ACCESS_SHADER_READ_BIT, isOutput, VK_ACCESS_SHADER_WRITE_BIT );
		if ( has( self, BF::Transfer ) )
			return either( isInput, VK_ACCESS_TRANSFER_READ_BIT, isOutput, VK_ACCESS_TRANSFER_WRITE_BIT );
		return VK_ACCESS_SHADER_READ_BIT;
	}
	VkPipelineStageFlags bufferStage( BufferAttachment const & self, bool isCompute )
	{
		if ( has( self, BF::Transition ) )
			return self.wantedAccess.pipelineStage;
		if ( has( self, BF::Transfer ) )
			return VK_PIPELINE_STAGE_TRANSFER_BIT;
		return isCompute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
	}
	WriteDescriptorSet bufferWrite( BufferAttachment const & self, uint32_t binding, uint32_t count, uint32_t index )
	{
		WriteDescriptorSet result{ binding, 0u, count, bufferDescriptor( self ) };
		VkDescriptorBufferInfo info{ self.buffer.buffer( index ), self.range.offset, self.range.size };
		if ( has( self, BF::View ) )
		{
			result.bufferViewInfo.push_back( info );
			result.texelBufferView.push_back( self.view );
		}
		else
			result.bufferInfo.push_back( info );
		return result;
	}
	// the attachment forwards to the image or the buffer
	uint32_t viewCount( Attachment const & self )
	{
		return has( self, AF::Image ) ? uint32_t( self.imageAttach.views.size() ) : 0u;
	}
	uint32_t bufferCount( Attachment const & self )
	{
		return has( self, AF::Buffer ) ? uint32_t( self.bufferAttach.buffer.getCount() ) : 0u;
	}
	ImageViewId attachView( Attachment const & self, uint32_t index )
	{
		return has( self, AF::Image ) ? imageView( self.imageAttach, index ) : ImageViewId{};
	}
	VkBuffer attachBuffer( Attachment const & self, uint32_t index )
	{
		return has( self, AF::Buffer ) ? self.bufferAttach.buffer.buffer( index ) : VkBuffer{};
	}
	VkImageLayout attachLayout( Attachment const & self, bool separate )
	{
		return imageLayout( self.imageAttach, separate, has( self, AF::Input ), has( self, AF::Output ) );
	}
	VkDescriptorType attachDescriptor( Attachment const & self )
	{
		return has( self, AF::Image ) ? imageDescriptor( self.imageAttach ) : bufferDescriptor( self.bufferAttach );
	}
	WriteDescriptorSet attachWrite( Attachment const & self, uint32_t index )
	{
		return bufferWrite( self.bufferAttach, self.binding, 1u, index );
	}
	VkAccessFlags attachAccess( Attachment const & self )
	{
		return has( self, AF::Image )
			? imageAccess( self.imageAttach, has( self, AF::Input ), has( self, AF::Output ) )
			: bufferAccess( self.bufferAttach, has( self, AF::Input ), has( self, AF::Output ) );
	}
	VkPipelineStageFlags attachStage( Attachment const & self, bool isCompute )
	{
		return has( self, AF::Image ) ? imageStage( self.imageAttach, isCompute ) : bufferStage( self.bufferAttach, isCompute );
	}
	// predicates
	bool pNoTransition( Attachment const & s ) { return has( s, AF::NoTransition ); }
	bool pInput( Attachment const & s ) { return has( s, AF::Input ); }
	bool pOutput( Attachment const & s ) { return has( s, AF::Output ); }
	bool pInOut( Attachment const & s ) { return has( s, AF::Input ) && has( s, AF::Output ); }
	bool pImage( Attachment const & s ) { return has( s, AF::Image ); }
	bool pBuffer( Attachment const & s ) { return has( s, AF::Buffer ); }
	bool pClearable( Attachment const & s ) { return has( s, AF::Clearable ); }
	bool pUniformBuffer( Attachment const & s ) { return pBuffer( s ) && has( s.bufferAttach, BF::Uniform ); }
	bool pStorageBuffer( Attachment const & s ) { return pBuffer( s ) && has( s.bufferAttach, BF::Storage ); }
	bool pTransferBuffer( Attachment const & s ) { return pBuffer( s ) && has( s.bufferAttach, BF::Transfer ); }
	bool pTransitionBuffer( Attachment const & s ) { return pBuffer( s ) && has( s.bufferAttach, BF::Transition ); }
	bool pBufferView( Attachment const & s ) { return pBuffer( s ) && has( s.bufferAttach, BF::View ); }
	bool pUniformBufferView( Attachment const & s ) { return pUniformBuffer( s ) && pBufferView( s ); }
	bool pStorageBufferView( Attachment const & s ) { return pStorageBuffer( s ) && pBufferView( s ); }
	bool pTransitionBufferView( Attachment const & s ) { return pTransitionBuffer( s ) && pBufferView( s ); }
	bool pTransferInputBuffer( Attachment const & s ) { return pInput( s ) && pTransferBuffer( s ); }
	bool pTransferOutputBuffer( Attachment const & s ) { return pOutput( s ) && pTransferBuffer( s ); }
	bool pClearableBuffer( Attachment const & s ) { return pBuffer( s ) && pOutput( s ) && pClearable( s ); }
	bool pClearableImage( Attachment const & s ) { return pImage( s ) && pOutput( s ) && pClearable( s ); }
	bool pSampled( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::Sampled ); }
	bool pStorage( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::Storage ); }
	bool pTransfer( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::Transfer ); }
	bool pTransition( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::Transition ); }
	bool pDepth( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::Depth ) && !has( s.imageAttach, IF::Transition ); }
	bool pStencil( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::Stencil ) && !has( s.imageAttach, IF::Transition ); }
	bool pColour( Attachment const & s ) { return !( pSampled( s ) || pTransition( s ) || pStorage( s ) || pTransfer( s ) || pDepth( s ) || pStencil( s ) ); }
	bool pColourInput( Attachment const & s ) { return pInput( s ) && pColour( s ); }
	bool pColourOutput( Attachment const & s ) { return pOutput( s ) && pColour( s ); }
	bool pColourInOut( Attachment const & s ) { return pInOut( s ) && pColour( s ); }
	bool pDepthInput( Attachment const & s ) { return pInput( s ) && pDepth( s ); }
	bool pDepthOutput( Attachment const & s ) { return pOutput( s ) && pDepth( s ); }
	bool pDepthInOut( Attachment const & s ) { return pInOut( s ) && pDepth( s ); }
	bool pStencilClearing( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::StencilClearing ); }
	bool pStencilInput( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::StencilInput ); }
	bool pStencilOutput( Attachment const & s ) { return pImage( s ) && has( s.imageAttach, IF::StencilOutput ); }
	bool pStencilInOut( Attachment const & s ) { return pStencilInput( s ) && pStencilOutput( s ); }
	bool pDepthStencilInput( Attachment const & s ) { return pDepthInput( s ) && pStencilInput( s ); }
	bool pDepthStencilOutput( Attachment const & s ) { return pDepthOutput( s ) && pStencilOutput( s ); }
	bool pDepthStencilInOut( Attachment const & s ) { return pDepthInOut( s ) && pStencilInOut( s ); }
	bool pTransferInput( Attachment const & s ) { return pInput( s ) && pTransfer( s ); }
	bool pTransferOutput( Attachment const & s ) { return pOutput( s ) && pTransfer( s ); }
	bool pStorageInput( Attachment const & s ) { return pInput( s ) && pStorage( s ); }
	bool pStorageOutput( Attachment const & s ) { return pOutput( s ) && pStorage( s ); }
	bool pSampler( Attachment const & s ) { return pSampled( s ); }
	// construction
	inline uint16_t implied( bool image, VkAttachmentLoadOp load, VkAttachmentStoreOp store, VkAttachmentLoadOp sload, VkAttachmentStoreOp sstore )
	{
		uint16_t result = uint16_t( image ? AF::Image : AF::Buffer );
		if ( load == VK_ATTACHMENT_LOAD_OP_LOAD || sload == VK_ATTACHMENT_LOAD_OP_LOAD )
			result = uint16_t( result | uint16_t( AF::Input ) );
		if ( store == VK_ATTACHMENT_STORE_OP_STORE || sstore == VK_ATTACHMENT_STORE_OP_STORE )
			result = uint16_t( result | uint16_t( AF::Output ) );
		return result;
	}
	void imageAttachCreate( Attachment & self, uint16_t flags, FramePass & pass, uint32_t binding, std::string name, uint16_t imageFlags, ImageViewIdArray views
		, VkAttachmentLoadOp loadOp, VkAttachmentStoreOp storeOp, VkAttachmentLoadOp stencilLoadOp, VkAttachmentStoreOp stencilStoreOp
		, SamplerDesc samplerDesc, VkClearValue clearValue, VkPipelineColorBlendAttachmentState blendState, VkImageLayout wantedLayout )
	{
		self.bufferAttach = BufferAttachment{};
		self.pass = &pass;
		self.binding = binding;
		self.name = name;
		self.imageAttach.views = views;
		self.imageAttach.loadOp = loadOp;
		self.imageAttach.storeOp = storeOp;
		self.imageAttach.stencilLoadOp = stencilLoadOp;
		self.imageAttach.stencilStoreOp = stencilStoreOp;
		self.imageAttach.samplerDesc = samplerDesc;
		self.imageAttach.clearValue = clearValue;
		self.imageAttach.blendState = blendState;
		self.imageAttach.wantedLayout = wantedLayout;
		self.imageAttach.flags = imageFlags;
		self.flags = uint16_t( flags | implied( true, loadOp, storeOp, stencilLoadOp, stencilStoreOp ) );
	}
	void bufferAttachCreate( Attachment & self, uint16_t flags, FramePass & pass, uint32_t binding, std::string name, uint16_t bufferFlags, Buffer buffer
		, VkDeviceSize offset, VkDeviceSize range, AccessState access )
	{
		self.imageAttach = ImageAttachment{};
		self.pass = &pass;
		self.binding = binding;
		self.name = name;
		self.bufferAttach.buffer = buffer;
		self.bufferAttach.view = VkBufferView{};
		self.bufferAttach.range.offset = offset;
		self.bufferAttach.range.size = range;
		self.bufferAttach.wantedAccess = access;
		self.bufferAttach.flags = bufferFlags;
		self.flags = uint16_t( flags | uint16_t( AF::Buffer ) );
	}
	void bufferViewAttachCreate( Attachment & self, uint16_t flags, FramePass & pass, uint32_t binding, std::string name, uint16_t bufferFlags, Buffer buffer
		, VkBufferView view, VkDeviceSize offset, VkDeviceSize range, AccessState access )
	{
		bufferAttachCreate( self, flags, pass, binding, name, bufferFlags, buffer, offset, range, access );
		self.bufferAttach.view = view;
	}
}
