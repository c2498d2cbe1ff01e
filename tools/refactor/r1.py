S = 'source/RenderGraph/'
RC, RP, RG = S + 'RecordContext.cpp', S + 'RunnablePass.cpp', S + 'RunnableGraph.cpp'
E = [
 ('rc-adapt-flat', [(RC, """			VkImageSubresourceRange result = subresourceRange;

			if ( !context.separateDepthStencilLayouts )
			{
				if ( isDepthStencilFormat( format )
					&& ( result.aspectMask == VK_IMAGE_ASPECT_DEPTH_BIT
						|| result.aspectMask == VK_IMAGE_ASPECT_STENCIL_BIT ) )
				{
					result.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
				}
			}

			return result;""", """			if ( context.separateDepthStencilLayouts || !isDepthStencilFormat( format ) )
			{
				return subresourceRange;
			}

			auto result = subresourceRange;

			switch ( result.aspectMask )
			{
			case VK_IMAGE_ASPECT_DEPTH_BIT:
			case VK_IMAGE_ASPECT_STENCIL_BIT:
				result.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
				break;
			default:
				break;
			}

			return result;""")]),
 ('rc-addstates-range', [(RC, """		for ( auto & state : data.m_buffers )
		{
			m_buffers.insert( state );
		}
""", """		m_buffers.insert( data.m_buffers.begin(), data.m_buffers.end() );
""")]),
 ('rc-addstates-emplace', [(RC, """		for ( auto & state : data.m_buffers )
		{
			m_buffers.insert( state );
		}
""", """		for ( auto const & [buffer, access] : data.m_buffers )
		{
			m_buffers.emplace( buffer, access );
		}
""")]),
 ('rc-addstates-find', [(RC, """		for ( auto & state : data.m_buffers )
		{
			m_buffers.insert( state );
		}
""", """		for ( auto it = data.m_buffers.begin(); it != data.m_buffers.end(); ++it )
		{
			if ( m_buffers.find( it->first ) == m_buffers.end() )
			{
				m_buffers[it->first] = it->second;
			}
		}
""")]),
 ('rc-addstates-reorder', [(RC, """		m_images.addStates( data.m_images );

		for""", """		for"""), (RC, """			m_prevPipelineState = data.m_currPipelineState;
		}
	}""", """			m_prevPipelineState = data.m_currPipelineState;
		}

		m_images.addStates( data.m_images );
	}""")]),
 ('rc-next-exchange', [(RC, """		m_prevPipelineState = m_currPipelineState;
		m_currPipelineState = m_nextPipelineState;
		m_nextPipelineState = state;
		m_nextImages""", """		m_prevPipelineState = std::exchange( m_currPipelineState, std::exchange( m_nextPipelineState, state ) );
		m_nextImages"""), (RC, "#include <unordered_set>", "#include <unordered_set>\n#include <utility>")]),
 ('rc-next-move', [(RC, """		m_prevPipelineState = m_currPipelineState;
		m_currPipelineState = m_nextPipelineState;
		m_nextPipelineState = state;
		m_nextImages = LayerLayoutStatesHandler{ imageLayouts };""", """		m_nextImages = LayerLayoutStatesHandler{ imageLayouts };
		auto previous = m_currPipelineState;
		auto current = m_nextPipelineState;
		m_nextPipelineState = state;
		m_currPipelineState = current;
		m_prevPipelineState = previous;""")]),
 ('rc-implicit-push', [(RC, "m_implicitTransitions.emplace_back( std::move( transition ) );", "m_implicitTransitions.push_back( transition );")]),
 ('rc-implicit-loop', [(RC, """		auto it = std::find_if( m_implicitTransitions.begin()
			, m_implicitTransitions.end()
			, [&view]( ImplicitTransition const & lookup )
			{
				return lookup.view == view;
			} );

		if ( it != m_implicitTransitions.end() )
		{
			auto pass = it->pass;
			auto action = it->action;
			m_implicitTransitions.erase( it );

			if ( !pass->isEnabled() )
			{
				action( *this, commandBuffer, index );
			}
		}
""", """		for ( auto it = m_implicitTransitions.begin(); it != m_implicitTransitions.end(); ++it )
		{
			if ( it->view == view )
			{
				auto transition = *it;
				m_implicitTransitions.erase( it );

				if ( !transition.pass->isEnabled() )
				{
					transition.action( *this, commandBuffer, index );
				}

				return;
			}
		}
""")]),
 ('rc-implicit-early', [(RC, """		if ( it != m_implicitTransitions.end() )
		{
			auto pass = it->pass;
			auto action = it->action;
			m_implicitTransitions.erase( it );

			if ( !pass->isEnabled() )
			{
				action( *this, commandBuffer, index );
			}
		}
""", """		if ( it == m_implicitTransitions.end() )
		{
			return;
		}

		ImplicitTransition const found = std::move( *it );
		m_implicitTransitions.erase( it );

		if ( found.pass->isEnabled() )
		{
			return;
		}

		found.action( *this, commandBuffer, index );
""")]),
 ('rc-access-index', [(RC, "m_buffers.insert_or_assign( buffer, layoutState );", "m_buffers[buffer] = layoutState;")]),
 ('rc-access-find', [(RC, """		if ( auto bufferIt = m_buffers.find( buffer ); bufferIt != m_buffers.end() )
		{
			return bufferIt->second;
		}

		static AccessState const dummy{ 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT };
		return dummy;""", """		static AccessState const dummy{ 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT };
		auto const bufferIt = m_buffers.find( buffer );
		return bufferIt == m_buffers.end() ? dummy : bufferIt->second;""")]),
 ('rc-barrier-guard', [(RC, """		if ( force
			|| ( ( from.layout != wantedState.layout
				|| from.state.pipelineStage != wantedState.state.pipelineStage )
				&& wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED ) )
		{
			auto & resources = getResources();
			VkImageMemoryBarrier barrier{ VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER
				, nullptr
				, from.state.access
				, wantedState.state.access
				, from.layout
				, wantedState.layout
				, VK_QUEUE_FAMILY_IGNORED
				, VK_QUEUE_FAMILY_IGNORED
				, resources.createImage( image )
				, range };
			resources->""", """		bool const changes = from.layout != wantedState.layout
			|| from.state.pipelineStage != wantedState.state.pipelineStage;
		bool const defined = wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED;

		if ( !force && !( changes && defined ) )
		{
			return;
		}

		{
			auto & resources = getResources();
			VkImageMemoryBarrier barrier{};
			barrier.sType = VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER;
			barrier.srcAccessMask = from.state.access;
			barrier.dstAccessMask = wantedState.state.access;
			barrier.oldLayout = from.layout;
			barrier.newLayout = wantedState.layout;
			barrier.srcQueueFamilyIndex = VK_QUEUE_FAMILY_IGNORED;
			barrier.dstQueueFamilyIndex = VK_QUEUE_FAMILY_IGNORED;
			barrier.image = resources.createImage( image );
			barrier.subresourceRange = range;
			resources->""")]),
 ('rc-barrier-makelayout', [(RC, """			from = { initialLayout
				, getAccessMask( initialLayout )
				, getStageMask( initialLayout ) };""", """			from = makeLayoutState( initialLayout );""")]),
 ('rc-barrier-state-first', [(RC, """			setAccessState( buffer
				, subresourceRange
				, wantedState );
		}
	}""", """		}
	}"""), (RC, """			auto const & resources = getResources();
			VkBufferMemoryBarrier""", """			setAccessState( buffer
				, subresourceRange
				, wantedState );
			auto const & resources = getResources();
			VkBufferMemoryBarrier""")]),
 ('rc-barrier-helper', [(RC, """	void RecordContext::memoryBarrier( VkCommandBuffer commandBuffer
		, VkBuffer buffer
		, BufferSubresourceRange const & subresourceRange
		, VkAccessFlags initialMask""", """	static bool needsBarrier( AccessState const & from, AccessState const & to )
	{
		return !( from.access == to.access && from.pipelineStage == to.pipelineStage );
	}

	void RecordContext::memoryBarrier( VkCommandBuffer commandBuffer
		, VkBuffer buffer
		, BufferSubresourceRange const & subresourceRange
		, VkAccessFlags initialMask"""), (RC, """		if ( force
			|| ( from.access != wantedState.access
				|| from.pipelineStage != wantedState.pipelineStage ) )""", """		if ( force || needsBarrier( from, wantedState ) )""")]),
 ('rc-copy-helper', [(RC, """	RecordContext::ImplicitAction RecordContext::copyImage(""", """	static void viewBarrier( RecordContext & recContext, VkCommandBuffer commandBuffer, ImageViewId const & view, VkImageLayout layout )
	{
		recContext.memoryBarrier( commandBuffer, view, makeLayoutState( layout ) );
	}

	static VkImageSubresourceLayers firstLayer( ImageViewId const & view )
	{
		auto const & range = view.data->info.subresourceRange;
		return { range.aspectMask, range.baseMipLevel, range.baseArrayLayer, 1u };
	}

	RecordContext::ImplicitAction RecordContext::copyImage("""), (RC, """			auto & srcSubresource = srcView.data->info.subresourceRange;
			auto & dstSubresource = dstView.data->info.subresourceRange;
			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
				, VkOffset3D{ 0u, 0u, 0u }
				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
				, VkOffset3D{ 0u, 0u, 0u }
			, { extent.width, extent.height, 1u } };
			recContext.memoryBarrier( commandBuffer
				, srcView.data->image
				, srcView.data->info.viewType
				, srcView.data->info.subresourceRange
				, makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) );
			recContext.memoryBarrier( commandBuffer
				, dstView.data->image
				, dstView.data->info.viewType
				, dstView.data->info.subresourceRange
				, makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ) );""", """			VkImageCopy region{ firstLayer( srcView )
				, {}
				, firstLayer( dstView )
				, {}
				, { extent.width, extent.height, 1u } };
			viewBarrier( recContext, commandBuffer, srcView, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL );
			viewBarrier( recContext, commandBuffer, dstView, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );""")]),
 ('rc-copy-final-early', [(RC, """			if ( finalLayout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				recContext.memoryBarrier( commandBuffer
					, dstView.data->image
					, dstView.data->info.viewType
					, dstView.data->info.subresourceRange
					, makeLayoutState( finalLayout ) );
			}
		};
	}

	RecordContext::ImplicitAction RecordContext::blitImage(""", """			if ( finalLayout == VK_IMAGE_LAYOUT_UNDEFINED )
			{
				return;
			}

			recContext.memoryBarrier( commandBuffer
				, dstView.data->image
				, dstView.data->info.viewType
				, dstView.data->info.subresourceRange
				, { finalLayout, { getAccessMask( finalLayout ), getStageMask( finalLayout ) } } );
		};
	}

	RecordContext::ImplicitAction RecordContext::blitImage(""")]),
 ('rc-clear-shared', [(RC, """	RecordContext::ImplicitAction RecordContext::clearAttachment( Attachment attach
		, VkImageLayout finalLayout )
	{""", """	static void clearView( RecordContext & recContext, ContextResourcesCache & resources, VkCommandBuffer commandBuffer, ImageViewId dstView, VkClearValue const & clearValue, VkImageLayout finalLayout )
	{
		recContext.memoryBarrier( commandBuffer, dstView, makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ) );
		auto image = resources.createImage( dstView.data->image );
		auto const & range = dstView.data->info.subresourceRange;

		if ( !isColourFormat( getFormat( dstView ) ) )
		{
			resources->vkCmdClearDepthStencilImage( commandBuffer, image, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &clearValue.depthStencil, 1u, &range );
		}
		else
		{
			resources->vkCmdClearColorImage( commandBuffer, image, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &clearValue.color, 1u, &range );
		}

		if ( finalLayout != VK_IMAGE_LAYOUT_UNDEFINED )
		{
			recContext.memoryBarrier( commandBuffer, dstView, makeLayoutState( finalLayout ) );
		}
	}

	RecordContext::ImplicitAction RecordContext::clearAttachment( Attachment attach
		, VkImageLayout finalLayout )
	{"""), (RC, """			auto & resources = recContext.getResources();
			auto dstView = attach.view( index );
			recContext.memoryBarrier( commandBuffer
				, dstView.data->image
				, dstView.data->info.viewType
				, dstView.data->info.subresourceRange
				, makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ) );

			if ( isColourFormat( getFormat( dstView ) ) )
			{
				auto colour = attach.getClearValue().color;
				resources->vkCmdClearColorImage( commandBuffer
					, resources.createImage( dstView.data->image )
					, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
					, &colour
					, 1u
					, &dstView.data->info.subresourceRange );
			}
			else
			{
				auto depthStencil = attach.getClearValue().depthStencil;
				resources->vkCmdClearDepthStencilImage( commandBuffer
					, resources.createImage( dstView.data->image )
					, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
					, &depthStencil
					, 1u
					, &dstView.data->info.subresourceRange );
			}

			if ( finalLayout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				recContext.memoryBarrier( commandBuffer
					, dstView.data->image
					, dstView.data->info.viewType
					, dstView.data->info.subresourceRange
					, makeLayoutState( finalLayout ) );
			}
""", """			clearView( recContext, recContext.getResources(), commandBuffer, attach.view( index ), attach.getClearValue(), finalLayout );
"""), (RC, """			auto & resources = recContext.getResources();
			recContext.memoryBarrier( commandBuffer
				, dstView.data->image
				, dstView.data->info.viewType
				, dstView.data->info.subresourceRange
				, makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ) );

			if ( isColourFormat( getFormat( dstView ) ) )
			{
				auto colour = clearValue.color;
				resources->vkCmdClearColorImage( commandBuffer
					, resources.createImage( dstView.data->image )
					, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
					, &colour
					, 1u
					, &dstView.data->info.subresourceRange );
			}
			else
			{
				auto depthStencil = clearValue.depthStencil;
				resources->vkCmdClearDepthStencilImage( commandBuffer
					, resources.createImage( dstView.data->image )
					, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
					, &depthStencil
					, 1u
					, &dstView.data->info.subresourceRange );
			}

			if ( finalLayout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				recContext.memoryBarrier( commandBuffer
					, dstView.data->image
					, dstView.data->info.viewType
					, dstView.data->info.subresourceRange
					, makeLayoutState( finalLayout ) );
			}
""", """			clearView( recContext, recContext.getResources(), commandBuffer, dstView, clearValue, finalLayout );
""")]),
 ('rp-convert-index', [(RP, """		for ( auto & wait : toWait )
		{
			if ( wait.semaphore
				&& semaphores.end() == std::find( semaphores.begin()
					, semaphores.end()
					, wait.semaphore ) )
			{
				semaphores.push_back( wait.semaphore );
				dstStageMasks.push_back( wait.dstStageMask );
			}
		}
""", """		for ( size_t i = 0u; i < toWait.size(); ++i )
		{
			auto const & [semaphore, stages] = toWait[i];

			if ( !semaphore )
			{
				continue;
			}

			auto it = std::find( semaphores.begin(), semaphores.end(), semaphore );

			if ( it != semaphores.end() )
			{
				continue;
			}

			dstStageMasks.emplace_back( stages );
			semaphores.emplace_back( semaphore );
		}
""")]),
 ('rp-convert-lambda', [(RP, """			if ( wait.semaphore
				&& semaphores.end() == std::find( semaphores.begin()
					, semaphores.end()
					, wait.semaphore ) )
			{""", """			auto known = [&semaphores]( VkSemaphore lookup )
			{
				return std::any_of( semaphores.begin(), semaphores.end(), [lookup]( VkSemaphore s ){ return s == lookup; } );
			};

			if ( wait.semaphore != nullptr && !known( wait.semaphore ) )
			{"""), (RP, "#include <cassert>", "#include <algorithm>\n#include <cassert>")]),
 ('rp-fence-early', [(RP, """		if ( m_fence )
		{
			if ( !m_fenceWaited )
			{
				wait( 0xFFFFFFFFFFFFFFFFULL );
			}

			m_context->vkResetFences( m_context->device
				, 1u
				, &m_fence );
		}

		m_fenceWaited = false;""", """		if ( m_fence && !m_fenceWaited )
		{
			wait( ~0ULL );
		}

		if ( m_fence )
		{
			m_context->vkResetFences( m_context->device, 1u, &m_fence );
		}

		m_fenceWaited = false;""")]),
 ('rp-fence-wait-early', [(RP, """		VkResult res = VK_SUCCESS;

		if ( m_fence )
		{
			res = m_context->vkWaitForFences( m_context->device
				, 1u
				, &m_fence
				, VK_TRUE
				, timeout );
		}

		m_fenceWaited = true;
		return res;""", """		m_fenceWaited = true;

		if ( !m_fence )
		{
			return VK_SUCCESS;
		}

		return m_context->vkWaitForFences( m_context->device, 1u, &m_fence, VK_TRUE, timeout );""")]),
 ('rp-ctor-helper', [(RP, """	RunnablePass::RunnablePass( FramePass const & pass
		, GraphContext & context
		, RunnableGraph & graph""", """	template< typename FuncT >
	static void forEachSource( ImageViewId const & view, FuncT func )
	{
		if ( view.data->source.empty() )
		{
			func( view );
			return;
		}

		for ( auto & source : view.data->source )
		{
			func( source );
		}
	}

	RunnablePass::RunnablePass( FramePass const & pass
		, GraphContext & context
		, RunnableGraph & graph"""), (RP, """				auto view = attach.view( i );

				if ( view.data->source.empty() )
				{
					m_imageLayouts.setLayoutState( view
						, { attach.getImageLayout( m_context.separateDepthStencilLayouts )
							, attach.getAccessMask()
							, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } );
				}
				else
				{
					for ( auto & source : view.data->source )
					{
						m_imageLayouts.setLayoutState( source
							, { attach.getImageLayout( m_context.separateDepthStencilLayouts )
								, attach.getAccessMask()
								, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } );
					}
				}
""", """				LayoutState const state{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
					, attach.getAccessMask()
					, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) };
				forEachSource( attach.view( i ), [this, &state]( ImageViewId const & v ){ m_imageLayouts.setLayoutState( v, state ); } );
""")]),
 ('rp-ctor-buffers-first', [(RP, """		for ( auto & attach : m_pass.buffers )
		{
			for ( uint32_t i = 0u; i < attach.getBufferCount(); ++i )
			{
				m_bufferAccesses.insert_or_assign( attach.buffer( i )
					, AccessState{ attach.getAccessMask()
						, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } );
			}
		}
	}
""", """	}
"""), (RP, """		for ( auto & attach : m_pass.images )
		{
			for ( uint32_t i = 0u;""", """		for ( auto & attach : m_pass.buffers )
		{
			AccessState const access{ attach.getAccessMask(), attach.getPipelineStageFlags( m_callbacks.isComputePass() ) };
			uint32_t const count = attach.getBufferCount();

			for ( uint32_t i = 0u; i != count; i++ )
			{
				m_bufferAccesses[attach.buffer( i )] = access;
			}
		}

		for ( auto & attach : m_pass.images )
		{
			for ( uint32_t i = 0u;""")]),
 ('rp-record-extract', [(RP, """	void RunnablePass::recordInto( VkCommandBuffer commandBuffer
		, uint32_t index
		, RecordContext & context )
	{""", """	static bool wantsTransition( Attachment const & attach )
	{
		return !attach.isNoTransition()
			&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() );
	}

	static void runAll( std::vector< RecordContext::ImplicitAction > const & actions, RecordContext & context, VkCommandBuffer commandBuffer, uint32_t index )
	{
		for ( auto const & action : actions )
		{
			action( context, commandBuffer, index );
		}
	}

	void RunnablePass::recordInto( VkCommandBuffer commandBuffer
		, uint32_t index
		, RecordContext & context )
	{"""), (RP, """				if ( !attach.isNoTransition()
					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
				{
					auto & range""", """				if ( wantsTransition( attach ) )
				{
					auto & range"""), (RP, """			for ( auto const & action : m_ruConfig.prePassActions )
			{
				action( context, commandBuffer, index );
			}
""", """			runAll( m_ruConfig.prePassActions, context, commandBuffer, index );
"""), (RP, """			for ( auto const & action : m_ruConfig.postPassActions )
			{
				action( context, commandBuffer, index );
			}
""", """			runAll( m_ruConfig.postPassActions, context, commandBuffer, index );
""")]),
 ('rp-record-continue', [(RP, """				if ( !attach.isNoTransition()
					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
				{
					auto & range""", """				if ( attach.isNoTransition() )
				{
					continue;
				}

				if ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() )
				{
					auto & range"""), (RP, """						currentLayout.layout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
						currentLayout.state.access = VK_ACCESS_TRANSFER_WRITE_BIT;
						currentLayout.state.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
""", """						currentLayout = makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
""")]),
 ('rp-record-clear-order', [(RP, """						if ( isColourFormat( getFormat( view ) ) )
						{
							VkClearColorValue colour{};
							m_context.vkCmdClearColorImage( commandBuffer
								, m_graph.createImage( view.data->image )
								, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
								, &colour
								, 1u
								, &view.data->info.subresourceRange );
						}
						else
						{
							VkClearDepthStencilValue depthStencil{};
							m_context.vkCmdClearDepthStencilImage( commandBuffer
								, m_graph.createImage( view.data->image )
								, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
								, &depthStencil
								, 1u
								, &view.data->info.subresourceRange );
						}
""", """						auto const image = m_graph.createImage( view.data->image );
						VkClearValue const clear{};

						if ( !isColourFormat( getFormat( view ) ) )
						{
							m_context.vkCmdClearDepthStencilImage( commandBuffer, image, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &clear.depthStencil, 1u, &view.data->info.subresourceRange );
						}
						else
						{
							m_context.vkCmdClearColorImage( commandBuffer, image, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &clear.color, 1u, &view.data->info.subresourceRange );
						}
""")]),
 ('rp-rerecord-early', [(RP, """		if ( index < m_passContexts.size() )
		{
			auto context = m_passContexts[index];
			recordOne( m_passes[index].commandBuffer
				, index
				, context );
		}

		return isEnabled() ? index : InvalidIndex;""", """		if ( m_passContexts.size() > index )
		{
			RecordContext context{ m_passContexts[index] };
			auto & data = m_passes[index];
			recordOne( data.commandBuffer, index, context );
		}

		if ( !isEnabled() )
		{
			return InvalidIndex;
		}

		return index;""")]),
 ('rp-reset-early', [(RP, """		if ( m_context.device )
		{
			assert( m_passes.size() > passIndex );
			auto & pass = m_passes[passIndex];

			if ( pass.commandBuffer.commandBuffer )
			{
				pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL );
				pass.commandBuffer.recorded = false;
				m_context.vkResetCommandBuffer( pass.commandBuffer.commandBuffer
					, VK_COMMAND_BUFFER_RESET_RELEASE_RESOURCES_BIT );
			}
		}
""", """		if ( !m_context.device )
		{
			return;
		}

		assert( passIndex < m_passes.size() );
		auto & pass = m_passes[passIndex];
		auto & [buffer, recorded] = pass.commandBuffer;

		if ( buffer == VkCommandBuffer{} )
		{
			return;
		}

		recorded = false;
		pass.fence.wait( std::numeric_limits< uint64_t >::max() );
		m_context.vkResetCommandBuffer( buffer, VK_COMMAND_BUFFER_RESET_RELEASE_RESOURCES_BIT );
"""), (RP, "#include <cassert>", "#include <cassert>\n#include <limits>")]),
 ('rp-aligned', [(RP, """			auto rem = size % align;
			return ( rem
				? size + ( align - rem )
				: size );""", """			if ( size % align == 0u )
			{
				return size;
			}

			return size + align - size % align;""")]),
 ('rp-aligned-div', [(RP, """			auto rem = size % align;
			return ( rem
				? size + ( align - rem )
				: size );""", """			return ( ( size + align - 1u ) / align ) * align;""")]),
 ('rg-merge-flat', [(RG, """			if ( auto nextIt = nextLayouts.find( currentLayout.first );
				nextIt != nextLayouts.end() )
			{
				auto & nxtLayout = nextIt->second;

				for ( auto & [curLayout, curStates] : currentLayout.second )
				{
					auto nxtLayerIt = nxtLayout.find( curLayout );

					if ( nxtLayerIt != nxtLayout.end() )
					{
						auto resLayerIt = result.try_emplace( curLayout ).first;

						for ( auto & [curLevel, _] : curStates )
						{
							auto nxtLevelIt = nxtLayerIt->second.find( curLevel );

							if ( nxtLevelIt != nxtLayerIt->second.end() )
							{
								resLayerIt->second.emplace( *nxtLevelIt );
							}
						}
					}
				}
			}

			return result;""", """			auto const nextIt = nextLayouts.find( currentLayout.first );

			if ( nextIt == nextLayouts.end() )
			{
				return result;
			}

			for ( auto const & [layer, levels] : currentLayout.second )
			{
				auto layerIt = nextIt->second.find( layer );

				if ( layerIt == nextIt->second.end() )
				{
					continue;
				}

				auto & target = result[layer];

				for ( auto const & [level, state] : levels )
				{
					auto levelIt = layerIt->second.find( level );

					if ( levelIt == layerIt->second.end() )
					{
						continue;
					}

					target.emplace( levelIt->first, levelIt->second );
				}
			}

			return result;""")]),
 ('rg-nextstate-findif', [(RG, """			while ( endIt != nextPassIt
				&& !( *nextPassIt )->isEnabled() )
			{	
				++nextPassIt;
			}

			return ( endIt != nextPassIt && ( *nextPassIt )->isEnabled() )
				? ( *nextPassIt )->getPipelineState()
				: currentState;""", """			auto it = std::find_if( nextPassIt, endIt, []( RunnablePassPtr const & p ){ return p->isEnabled(); } );
			return it == endIt
				? currentState
				: ( *it )->getPipelineState();""")]),
 ('rg-nextstate-for', [(RG, """			while ( endIt != nextPassIt
				&& !( *nextPassIt )->isEnabled() )
			{	
				++nextPassIt;
			}

			return ( endIt != nextPassIt && ( *nextPassIt )->isEnabled() )
				? ( *nextPassIt )->getPipelineState()
				: currentState;""", """			for ( auto it = nextPassIt; it != endIt; ++it )
			{
				if ( ( *it )->isEnabled() )
				{
					return ( *it )->getPipelineState();
				}
			}

			return currentState;""")]),
 ('rg-gather-for', [(RG, """			while ( !currentLayouts.empty()
				&& endIt != nextPassIt )
			{
				if ( auto const & nextPass = **nextPassIt;
					nextPass.isEnabled() )
				{
					auto & nextLayouts = nextPass.getImageLayouts();""", """			for ( ; endIt != nextPassIt && !currentLayouts.empty(); ++nextPassIt )
			{
				auto const & nextPass = **nextPassIt;

				if ( nextPass.isEnabled() )
				{
					auto & nextLayouts = nextPass.getImageLayouts();"""), (RG, """				}
				
				++nextPassIt;
			}
""", """				}
			}
""")]),
 ('rg-record-index', [(RG, """			while ( currPass != m_passes.end() )
			{
				auto const & pass = *currPass;
				++currPass;

				if""", """			for ( auto const & pass : m_passes )
			{
				if""")]),
 ('rg-record-flip', [(RG, """				if ( nextPass != m_passes.end() )
				{
					recordContext.setNextPipelineState( rungrf::getNextState( pass->getPipelineState(), nextPass, m_passes.end() )
						, rungrf::gatherNextImageLayouts( pass->getImageLayouts(), nextPass, m_passes.end() ) );
					++nextPass;
				}
				else
				{
					recordContext.setNextPipelineState( pass->getPipelineState()
						, m_graph.getOutputLayoutStates() );
				}

				*it = pass->recordCurrentInto( recordContext, m_commandBuffer );
				++it;""", """				bool const last = nextPass == m_passes.end();

				if ( last )
				{
					recordContext.setNextPipelineState( pass->getPipelineState(), m_graph.getOutputLayoutStates() );
				}
				else
				{
					auto state = rungrf::getNextState( pass->getPipelineState(), nextPass, m_passes.end() );
					auto layouts = rungrf::gatherNextImageLayouts( pass->getImageLayouts(), nextPass, m_passes.end() );
					recordContext.setNextPipelineState( state, layouts );
					++nextPass;
				}

				*( it++ ) = pass->recordCurrentInto( recordContext, m_commandBuffer );""")]),
 ('rg-record-begin-helper', [(RG, """	void RunnableGraph::record()
	{""", """	static void beginOnce( GraphContext & context, VkCommandBuffer commandBuffer )
	{
		VkCommandBufferBeginInfo info{};
		info.sType = VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO;
		info.flags = VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT;
		context.vkBeginCommandBuffer( commandBuffer, &info );
	}

	void RunnableGraph::record()
	{"""), (RG, """			VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
				, nullptr
				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
				, nullptr };
			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
			m_timer.beginPass""", """			beginOnce( m_context, m_commandBuffer );
			m_timer.beginPass""")]),
 ('rg-run-if', [(RG, """		return run( ( toWait.semaphore
				? SemaphoreWaitArray{ 1u, toWait }
				: SemaphoreWaitArray{} )
			, queue );""", """		SemaphoreWaitArray waits;

		if ( toWait.semaphore )
		{
			waits.push_back( toWait );
		}

		return run( waits, queue );""")]),
 ('rg-run-submit', [(RG, """		VkSubmitInfo submitInfo{ VK_STRUCTURE_TYPE_SUBMIT_INFO
			, nullptr
			, uint32_t( semaphores.size() )
			, semaphores.data()
			, dstStageMasks.data()
			, 1u
			, &m_commandBuffer
			, 1u
			, &m_semaphore };
		m_fence.reset();
		m_context.delQueue.clear( m_context );""", """		m_fence.reset();
		m_context.delQueue.clear( m_context );
		VkSubmitInfo submitInfo{};
		submitInfo.sType = VK_STRUCTURE_TYPE_SUBMIT_INFO;
		submitInfo.waitSemaphoreCount = static_cast< uint32_t >( semaphores.size() );
		submitInfo.pWaitSemaphores = semaphores.data();
		submitInfo.pWaitDstStageMask = dstStageMasks.data();
		submitInfo.commandBufferCount = 1u;
		submitInfo.pCommandBuffers = &m_commandBuffer;
		submitInfo.signalSemaphoreCount = 1u;
		submitInfo.pSignalSemaphores = &m_semaphore;""")]),
 ('rg-run-result', [(RG, """		return { SemaphoreWait{ m_semaphore
			, m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };""", """		SemaphoreWaitArray result;
		auto const & state = m_graph.getFinalStates().getCurrPipelineState();
		result.push_back( { m_semaphore, state.pipelineStage } );
		return result;""")]),
 ('rg-current-nested', [(RG, """			// Lookup in graph's external inputs.
			result = m_graph.getInputLayoutState( image, viewType, range );

			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				context.setLayoutState( image, viewType, range, result );
			}
		}

		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
		{
			// Lookup in graph's previous final state.
			result = m_graph.getFinalLayoutState( image, viewType, range );

			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				context.setLayoutState( image, viewType, range, result );
			}
		}
""", """			result = m_graph.getInputLayoutState( image, viewType, range );

			if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
			{
				result = m_graph.getFinalLayoutState( image, viewType, range );
			}

			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				context.setLayoutState( image, viewType, range, result );
			}
		}
""")]),
 ('rg-next-nested', [(RG, """		auto result = context.getNextLayoutState( view );

		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
		{
			// Next layout undefined means that there is no pass after this one in the graph.
			result = getOutputLayoutState( view );
		}

		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
		{
			// Prevent from outputing a VK_IMAGE_LAYOUT_UNDEFINED anyway.
			result = runnable.getLayoutState( view );
		}

		return result;""", """		if ( auto next = context.getNextLayoutState( view ); next.layout != VK_IMAGE_LAYOUT_UNDEFINED )
		{
			return next;
		}

		auto output = m_graph.getOutputLayoutState( view );
		return output.layout == VK_IMAGE_LAYOUT_UNDEFINED ? runnable.getLayoutState( view ) : output;""")]),
 ('rg-ctor-iters', [(RG, """		for ( auto const & node : m_nodes )
		{
			if ( node->getKind() == GraphNode::Kind::FramePass )
			{
				auto const & renderPassNode = nodeCast< FramePassNode >( *node );
				m_passes.push_back( renderPassNode.getFramePass().createRunnable( m_context
					, *this ) );
			}
		}
""", """		m_passes.reserve( m_nodes.size() );

		for ( auto it = m_nodes.cbegin(); it != m_nodes.cend(); ++it )
		{
			GraphNode const & node = **it;

			if ( node.getKind() != GraphNode::Kind::FramePass )
			{
				continue;
			}

			auto const & framePass = nodeCast< FramePassNode >( node ).getFramePass();
			m_passes.emplace_back( framePass.createRunnable( m_context, *this ) );
		}
""")]),
 ('rg-dtor-swap', [(RG, """		if ( m_context.vkDestroySemaphore && m_semaphore )
		{
			crgUnregisterObject( m_context, m_semaphore );
			m_context.vkDestroySemaphore( m_context.device
				, m_semaphore
				, m_context.allocator );
		}

		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
		{
			crgUnregisterObject( m_context, m_commandBuffer );
			m_context.vkFreeCommandBuffers( m_context.device
				, getCommandPool()
				, 1u
				, &m_commandBuffer );
		}
""", """		if ( m_commandBuffer && m_context.vkFreeCommandBuffers )
		{
			crgUnregisterObject( m_context, m_commandBuffer );
			m_context.vkFreeCommandBuffers( m_context.device, getCommandPool(), 1u, &m_commandBuffer );
			m_commandBuffer = {};
		}

		if ( m_semaphore && m_context.vkDestroySemaphore )
		{
			crgUnregisterObject( m_context, m_semaphore );
			m_context.vkDestroySemaphore( m_context.device, m_semaphore, m_context.allocator );
			m_semaphore = {};
		}
""")]),
 ('rg-notify-foreach', [(RG, """		m_timer.notifyPassRender();

		for ( auto const & pass : m_passes )
		{
			pass->notifyPassRender();
		}
""", """		std::for_each( m_passes.begin(), m_passes.end(), []( RunnablePassPtr const & pass ){ pass->notifyPassRender(); } );
		m_timer.notifyPassRender();
""")]),
]
