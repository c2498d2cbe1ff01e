// Reference models: render passes and framebuffers.
#include "spec.hpp"
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderPassHolder.hpp>

namespace spec
{
	using Holder = RenderPassHolder;
	inline bool isTarget( Attachment const & a )
	{
		return a.isColourAttach() || a.isDepthAttach() || a.isStencilAttach();
	}
	inline bool sameState( PipelineState const & a, PipelineState const & b )
	{
		return a.access == b.access && a.pipelineStage == b.pipelineStage;
	}
	inline bool stale( LayoutState const & is, LayoutState const & was )
	{
		if ( is.layout == VK_IMAGE_LAYOUT_UNDEFINED )
			return false;
		return is.layout != was.layout || is.state.access != was.state.access || ( is.state.access && is.state.pipelineStage != was.state.pipelineStage );
	}
	inline bool upToDate( RecordContext & rc, Holder::PassData const & data, PipelineState const & previous, PipelineState const & next, uint32_t index )
	{
		if ( !data.renderPass || !sameState( data.previousState, previous ) || !sameState( data.nextState, next ) )
			return false;
		for ( auto & e : data.attaches )
			if ( stale( rc.getLayoutState( resolveView( e.view, index ) ), e.input ) )
				return false;
		return true;
	}
	void rpClean( Holder::PassData & self, GraphContext & context )
	{
		self.attaches.clear();
		self.clearValues.clear();
		if ( self.frameBuffer )
		{
			crgUnregisterObject( context, self.frameBuffer );
			context.vkDestroyFramebuffer( context.device, self.frameBuffer, context.allocator );
			self.frameBuffer = {};
		}
		if ( self.renderPass )
		{
			crgUnregisterObject( context, self.renderPass );
			context.vkDestroyRenderPass( context.device, self.renderPass, context.allocator );
			self.renderPass = {};
		}
	}
	void rpDestroy( Holder & self )
	{
		for ( auto & p : self.m_passes )
			p.cleanup( self.m_context );
	}
	bool rpInitialise( Holder & self, RecordContext & rc, RunnablePass const & runnable, uint32_t index )
	{
		auto & data = self.m_passes[index];
		auto previous = rc.getPrevPipelineState();
		auto next = rc.getNextPipelineState();
		if ( upToDate( rc, data, previous, next, index ) )
			return false;
		data.cleanup( self.m_context );
		self.doCreateRenderPass( rc, runnable, previous, next, index );
		self.doInitialiseRenderArea( index );
		return true;
	}
	inline void reach( RecordContext & rc, ImageViewId const & view, LayoutState const & state )
	{
		if ( view.data->source.empty() )
			rc.setLayoutState( view, state );
		else
			for ( auto & s : view.data->source )
				rc.setLayoutState( s, state );
	}
	void rpCreate( Holder & self, RecordContext & rc, RunnablePass const & runnable, PipelineState const & previous, PipelineState const & next, uint32_t index )
	{
		auto & data = self.m_passes[index];
		VkAttachmentDescriptionArray all;
		VkAttachmentReferenceArray colours;
		VkAttachmentReference depth{};
		self.m_blendAttachs.clear();
		for ( auto & a : self.m_pass.images )
		{
			if ( !isTarget( a ) )
				continue;
			auto view = a.view( index );
			auto one = resolveView( view, index );
			auto current = self.m_graph.getCurrentLayoutState( rc, one );
			auto to = self.m_graph.getNextLayoutState( rc, runnable, one );
			LayoutState from{};
			if ( a.isInput() )
				from = current;
			else
				from = makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED );
			checkUndefinedInput( "RenderPass", a, one, from.layout );
			VkAttachmentReference ref{ uint32_t( all.size() ), a.getImageLayout( self.m_context.separateDepthStencilLayouts ) };
			VkAttachmentDescription d{};
			d.format = view.data->info.format;
			d.samples = view.data->image.data->info.samples;
			d.loadOp = from.layout == VK_IMAGE_LAYOUT_UNDEFINED ? VK_ATTACHMENT_LOAD_OP_CLEAR : a.getLoadOp();
			d.storeOp = a.getStoreOp();
			d.stencilLoadOp = a.getStencilLoadOp();
			d.stencilStoreOp = a.getStencilStoreOp();
			d.initialLayout = from.layout;
			d.finalLayout = to.layout;
			if ( a.isDepthAttach() || a.isStencilAttach() )
				depth = ref;
			else
			{
				self.m_blendAttachs.push_back( a.getBlendState() );
				colours.push_back( ref );
			}
			all.push_back( d );
			data.attaches.push_back( { view, from, to } );
			data.clearValues.push_back( a.getClearValue() );
			reach( rc, view, to );
		}
		data.previousState = previous;
		data.nextState = next;
		VkSubpassDescription subpass{};
		subpass.pipelineBindPoint = VK_PIPELINE_BIND_POINT_GRAPHICS;
		subpass.colorAttachmentCount = uint32_t( colours.size() );
		subpass.pColorAttachments = colours.data();
		if ( depth.layout )
			subpass.pDepthStencilAttachment = &depth;
		VkAccessFlags const own = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
		VkSubpassDependencyArray deps{
			{ VK_SUBPASS_EXTERNAL, 0u, previous.pipelineStage, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT, previous.access, own, VK_DEPENDENCY_BY_REGION_BIT }
			, { 0u, VK_SUBPASS_EXTERNAL, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT, next.pipelineStage, own, next.access, VK_DEPENDENCY_BY_REGION_BIT } };
		VkRenderPassCreateInfo info{ VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO, nullptr, 0u
			, uint32_t( all.size() ), all.data(), 1u, &subpass, uint32_t( deps.size() ), deps.data() };
		checkVkResult( self.m_context.vkCreateRenderPass( self.m_context.device, &info, self.m_context.allocator, &data.renderPass ), "render pass" );
		auto number = self.m_count++;
		crgRegisterObject( self.m_context, self.m_pass.getGroupName() + std::to_string( number ), data.renderPass );
	}
	void rpArea( Holder & self, uint32_t index )
	{
		auto & data = self.m_passes[index];
		auto size = self.m_size;
		self.m_layers = 1u;
		data.attachments.clear();
		for ( auto & a : self.m_pass.images )
		{
			if ( !isTarget( a ) )
				continue;
			auto view = a.view( index );
			auto extent = getMipExtent( view );
			size.width = std::max( size.width, extent.width );
			size.height = std::max( size.height, extent.height );
			self.m_layers = std::max( self.m_layers, view.data->info.subresourceRange.layerCount );
			data.attachments.push_back( &a );
		}
		data.renderArea.extent = size;
	}
	VkFramebuffer rpFramebuffer( Holder const & self, uint32_t index )
	{
		auto & data = self.m_passes[index];
		if ( data.frameBuffer )
			return data.frameBuffer;
		VkImageViewArray views;
		for ( auto a : data.attachments )
			views.push_back( self.m_graph.createImageView( a->view( index ) ) );
		VkFramebufferCreateInfo info{};
		info.sType = VK_STRUCTURE_TYPE_FRAMEBUFFER_CREATE_INFO;
		info.renderPass = data.renderPass;
		info.attachmentCount = uint32_t( views.size() );
		info.pAttachments = views.data();
		info.width = data.renderArea.extent.width;
		info.height = data.renderArea.extent.height;
		info.layers = self.m_layers;
		checkVkResult( self.m_context.vkCreateFramebuffer( self.m_context.device, &info, self.m_context.allocator, &data.frameBuffer ), "framebuffer" );
		crgRegisterObject( self.m_context, self.m_pass.getGroupName() + "[" + std::to_string( index ) + "]", data.frameBuffer );
		return data.frameBuffer;
	}
	VkRenderPassBeginInfo rpBeginInfo( Holder const & self, uint32_t index )
	{
		auto framebuffer = self.doCreateFramebuffer( index );
		auto & data = self.m_passes[index];
		VkRenderPassBeginInfo r{};
		r.sType = VK_STRUCTURE_TYPE_RENDER_PASS_BEGIN_INFO;
		r.renderPass = data.renderPass;
		r.framebuffer = framebuffer;
		r.renderArea = data.renderArea;
		r.clearValueCount = uint32_t( data.clearValues.size() );
		r.pClearValues = data.clearValues.data();
		return r;
	}
	void rpBegin( Holder & self, RecordContext & rc, VkCommandBuffer cmd, VkSubpassContents contents, uint32_t index )
	{
		self.m_index = index;
		self.m_currentPass = &self.m_passes[index];
		for ( auto & e : self.m_passes[index].attaches )
			rc.setLayoutState( resolveView( e.view, index ), e.input );
		auto info = self.getBeginInfo( index );
		self.m_context.vkCmdBeginRenderPass( cmd, &info, contents );
	}
	void rpEnd( Holder & self, RecordContext & rc, VkCommandBuffer cmd )
	{
		self.m_context.vkCmdEndRenderPass( cmd );
		for ( auto & e : self.m_currentPass->attaches )
			rc.setLayoutState( resolveView( e.view, self.m_index ), e.output );
		self.m_currentPass = nullptr;
	}
	// between begin and end, the current data is that of the index
	void rpEndGiven( Holder & self, RecordContext & rc, VkCommandBuffer cmd )
	{
		self.m_currentPass = &self.m_passes[self.m_index];
		self.end( rc, cmd );
	}
	void rpEndWanted( Holder & self, RecordContext & rc, VkCommandBuffer cmd )
	{
		self.m_currentPass = &self.m_passes[self.m_index];
		rpEnd( self, rc, cmd );
	}
	VkPipelineColorBlendStateCreateInfo rpBlend( Holder & self )
	{
		VkPipelineColorBlendStateCreateInfo r{};
		r.sType = VK_STRUCTURE_TYPE_PIPELINE_COLOR_BLEND_STATE_CREATE_INFO;
		r.logicOpEnable = VK_FALSE;
		r.logicOp = VK_LOGIC_OP_COPY;
		r.attachmentCount = uint32_t( self.m_blendAttachs.size() );
		r.pAttachments = self.m_blendAttachs.data();
		return r;
	}
	void rpRecord( RenderPass & self, RecordContext & rc, VkCommandBuffer cmd, uint32_t index )
	{
		if ( self.m_holder.initialise( rc, self, index ) )
			self.m_rpCallbacks.initialise( index );
		self.m_holder.begin( rc, cmd, self.m_rpCallbacks.getSubpassContents(), index );
		self.m_rpCallbacks.record( rc, cmd, index );
		self.m_holder.end( rc, cmd );
	}
}
