S = 'source/RenderGraph/'
FG, GR, TM, GB, GN, LL, AT = (S + x for x in ('FrameGraph.cpp', 'FramePassGroup.cpp', 'FramePassTimer.cpp', 'GraphBuilder.cpp', 'GraphNode.cpp', 'LayerLayoutStatesHandler.cpp', 'AttachmentTransition.cpp'))
E = [
('fg-compile-nodes', [(FG, """			auto node = std::make_unique< FramePassNode >( *pass );
			nodes.emplace_back( std::move( node ) );
""", """			nodes.push_back( std::make_unique< FramePassNode >( *pass ) );
""")]),
('fg-compile-index', [(FG, """		for ( auto & pass : passes )
		{
			auto node = std::make_unique< FramePassNode >( *pass );
			nodes.emplace_back( std::move( node ) );
		}
""", """		nodes.reserve( passes.size() );

		for ( size_t i = 0u; i < passes.size(); ++i )
		{
			nodes.emplace_back( std::make_unique< FramePassNode >( *passes[i] ) );
		}
""")]),
('fg-compile-transform', [(FG, """		for ( auto & pass : passes )
		{
			auto node = std::make_unique< FramePassNode >( *pass );
			nodes.emplace_back( std::move( node ) );
		}
""", """		std::transform( passes.begin()
			, passes.end()
			, std::back_inserter( nodes )
			, []( FramePass * pass )
			{
				return std::make_unique< FramePassNode >( *pass );
			} );
""")]),
('fg-compile-maps', [(FG, """		ImageMemoryMap images;
		ImageViewMap imageViews;
		return std::make_unique""", """		return std::make_unique""")]),
('fg-final-resolve', [(FG, """		if ( view.data->source.empty() )
		{
			return getFinalLayoutState( view.data->image
				, view.data->info.viewType
				, view.data->info.subresourceRange );
		}

		return getFinalLayoutState( view.data->source[passIndex], 0u );
""", """		if ( !view.data->source.empty() )
		{
			return getFinalLayoutState( view.data->source[passIndex], 0u );
		}

		auto const & data = *view.data;
		return getFinalLayoutState( data.image
			, data.info.viewType
			, data.info.subresourceRange );
""")]),
('fg-final-tern', [(FG, """		if ( view.data->source.empty() )
		{
			return getFinalLayoutState( view.data->image
				, view.data->info.viewType
				, view.data->info.subresourceRange );
		}

		return getFinalLayoutState( view.data->source[passIndex], 0u );
""", """		return view.data->source.empty()
			? getFinalLayoutState( view.data->image, view.data->info.viewType, view.data->info.subresourceRange )
			: getFinalLayoutState( view.data->source.at( passIndex ), 0u );
""")]),
('fg-input-direct', [(FG, """		addInput( view.data->image
			, view.data->info.viewType
			, view.data->info.subresourceRange
			, outputLayout );
	}

	LayoutState FrameGraph""", """		auto const & info = view.data->info;
		m_inputs.setLayoutState( view.data->image
			, info.viewType
			, info.subresourceRange
			, outputLayout );
	}

	LayoutState FrameGraph""")]),
('fg-output-direct', [(FG, """		return getOutputLayoutState( view.data->image
			, view.data->info.viewType
			, view.data->info.subresourceRange );
""", """		auto & info = view.data->info;
		return m_outputs.getLayoutState( view.data->image
			, info.viewType
			, info.subresourceRange );
""")]),
('fg-mip-helper', [(FG, """	VkExtent3D getMipExtent( ImageViewId const & image )
	{
		auto result = getExtent( image.data->image );
		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
		return result;
	}
""", """	namespace fgph
	{
		static uint32_t mipSize( uint32_t size, uint32_t level )
		{
			uint32_t const shifted = size >> level;
			return shifted == 0u ? 1u : shifted;
		}
	}

	VkExtent3D getMipExtent( ImageViewId const & image )
	{
		auto const level = image.data->info.subresourceRange.baseMipLevel;
		auto const extent = getExtent( image );
		return { fgph::mipSize( extent.width, level )
			, fgph::mipSize( extent.height, level )
			, fgph::mipSize( extent.depth, level ) };
	}
""")]),
('fg-mip-lambda', [(FG, """		auto result = getExtent( image.data->image );
		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
		return result;
""", """		auto reduce = [&image]( uint32_t & value )
		{
			value = std::max( value >> image.data->info.subresourceRange.baseMipLevel, 1u );
		};
		auto result = image.data->image.data->info.extent;
		reduce( result.width );
		reduce( result.height );
		reduce( result.depth );
		return result;
""")]),
('fg-access-return', [(FG, """		VkAccessFlags result{ 0u };

		switch ( layout )
		{
		case VK_IMAGE_LAYOUT_PRESENT_SRC_KHR:
		case VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR:
			result |= VK_ACCESS_MEMORY_READ_BIT;
			break;
		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL:
			result |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
			break;
""", """		VkAccessFlags result{ 0u };

		if ( layout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL )
		{
			return VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
		}

		switch ( layout )
		{
		case VK_IMAGE_LAYOUT_PRESENT_SRC_KHR:
		case VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR:
			result = VK_ACCESS_MEMORY_READ_BIT;
			break;
""")]),
('fg-access-or', [(FG, """			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
			break;
""", """			return VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
""")]),
('fg-stage-merge', [(FG, """		case VK_IMAGE_LAYOUT_GENERAL:
			result |= VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
			break;
		case VK_IMAGE_LAYOUT_PRESENT_SRC_KHR:
""", """		case VK_IMAGE_LAYOUT_GENERAL:
		case VK_IMAGE_LAYOUT_PRESENT_SRC_KHR:
""")]),
('fg-stage-default', [(FG, """			result |= VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV;
			break;
#endif
		default:
			break;
		}

		return result;
""", """			return VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV;
#endif
		default:
			return 0u;
		}

		return result;
""", 0)]),
('fg-pipe-lambda', [(FG, """		if ( ( flags & VK_PIPELINE_STAGE_TRANSFER_BIT ) == VK_PIPELINE_STAGE_TRANSFER_BIT )
		{
			result |= VK_ACCESS_TRANSFER_READ_BIT;
			result |= VK_ACCESS_TRANSFER_WRITE_BIT;
		}
""", """		auto has = [flags]( VkPipelineStageFlags stage )
		{
			return ( flags & stage ) != 0u;
		};

		if ( has( VK_PIPELINE_STAGE_TRANSFER_BIT ) )
		{
			result |= VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
		}
""")]),
('fg-pipe-merge', [(FG, """		if ( ( flags & VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) == VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT )
		{
			result |= VK_ACCESS_SHADER_READ_BIT;
		}
""", """		if ( flags & ( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) )
		{
			result |= VK_ACCESS_SHADER_READ_BIT;
		}
"""), (FG, """		if ( ( flags & VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) == VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT )
		{
			result |= VK_ACCESS_SHADER_READ_BIT;
		}

""", "")]),
('fg-pipe-field', [(FG, """		return { result, flags };
""", """		PipelineState state{};
		state.pipelineStage = flags;
		state.access = result;
		return state;
""")]),
('fg-make-fields', [(FG, """		return { layout
			, crg::getAccessMask( layout )
			, crg::getStageMask( layout ) };
""", """		LayoutState result;
		result.layout = layout;
		result.state.access = crg::getAccessMask( layout );
		result.state.pipelineStage = crg::getStageMask( layout );
		return result;
""")]),
('fg-aspect-if', [(FG, """		return VkImageAspectFlags( isDepthStencilFormat( format )
			? VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT
			: ( isDepthFormat( format )
				? VK_IMAGE_ASPECT_DEPTH_BIT
				: ( isStencilFormat( format )
					? VK_IMAGE_ASPECT_STENCIL_BIT
					: VK_IMAGE_ASPECT_COLOR_BIT ) ) );
""", """		if ( isColourFormat( format ) )
		{
			return VK_IMAGE_ASPECT_COLOR_BIT;
		}

		VkImageAspectFlags result{};

		if ( isDepthFormat( format ) )
		{
			result |= VK_IMAGE_ASPECT_DEPTH_BIT;
		}

		if ( isStencilFormat( format ) )
		{
			result |= VK_IMAGE_ASPECT_STENCIL_BIT;
		}

		return result;
""")]),
('fg-depth-switch', [(FG, """		return fmt == VK_FORMAT_S8_UINT
			|| fmt == VK_FORMAT_D16_UNORM_S8_UINT
			|| fmt == VK_FORMAT_D24_UNORM_S8_UINT
			|| fmt == VK_FORMAT_D32_SFLOAT_S8_UINT;
""", """		switch ( fmt )
		{
		case VK_FORMAT_S8_UINT:
		case VK_FORMAT_D16_UNORM_S8_UINT:
		case VK_FORMAT_D24_UNORM_S8_UINT:
		case VK_FORMAT_D32_SFLOAT_S8_UINT:
			return true;
		default:
			return false;
		}
""")]),
('fg-colour', [(FG, """		return !isDepthFormat( fmt ) && !isStencilFormat( fmt );
""", """		return !( isDepthFormat( fmt ) || isStencilFormat( fmt ) );
""")]),
('fg-addsub-index', [(FG, """		for ( uint32_t layerIdx = 0u; layerIdx < range.layerCount; ++layerIdx )
		{
			auto & layers = ranges.try_emplace( range.baseArrayLayer + layerIdx ).first->second;

			for ( uint32_t levelIdx = 0u; levelIdx < range.levelCount; ++levelIdx )
			{
				layers.insert_or_assign( range.baseMipLevel + levelIdx, newLayout );
			}
		}

		return newLayout;
""", """		for ( uint32_t layerIdx = 0u; layerIdx < range.layerCount; ++layerIdx )
		{
			auto & layers = ranges[range.baseArrayLayer + layerIdx];

			for ( uint32_t levelIdx = 0u; levelIdx < range.levelCount; ++levelIdx )
			{
				layers[range.baseMipLevel + levelIdx] = newLayout;
			}
		}

		return newLayout;
""")]),
('fg-addsub-ends', [(FG, """		for ( uint32_t layerIdx = 0u; layerIdx < range.layerCount; ++layerIdx )
		{
			auto & layers = ranges.try_emplace( range.baseArrayLayer + layerIdx ).first->second;

			for ( uint32_t levelIdx = 0u; levelIdx < range.levelCount; ++levelIdx )
			{
				layers.insert_or_assign( range.baseMipLevel + levelIdx, newLayout );
			}
		}
""", """		auto const layerEnd = range.baseArrayLayer + range.layerCount;
		auto const levelEnd = range.baseMipLevel + range.levelCount;

		for ( auto layer = range.baseArrayLayer; layer < layerEnd; ++layer )
		{
			auto & layers = ranges.try_emplace( layer ).first->second;

			for ( auto level = range.baseMipLevel; level < levelEnd; ++level )
			{
				layers.insert_or_assign( level, newLayout );
			}
		}
""")]),
('fg-getsub-continue', [(FG, """			if ( layerIt != ranges.end() )
			{
				auto & layers = layerIt->second;

				for ( uint32_t levelIdx = 0u; levelIdx < range.levelCount; ++levelIdx )
				{
					auto it = layers.find( range.baseMipLevel + levelIdx );

					if ( it != layers.end() )
					{
						auto state = it->second;
""", """			if ( layerIt == ranges.end() )
			{
				continue;
			}

			{
				auto & layers = layerIt->second;

				for ( uint32_t levelIdx = 0u; levelIdx < range.levelCount; ++levelIdx )
				{
					if ( auto it = layers.find( range.baseMipLevel + levelIdx ); it != layers.end() )
					{
						auto const & state = it->second;
""")]),
('fg-getsub-find', [(FG, """						auto [rit, res] = states.emplace( state.layout, state );

						if ( !res )
						{
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wnull-dereference"
							rit->second.state.access |= state.state.access;
#pragma GCC diagnostic pop
						}
""", """						auto rit = states.find( state.layout );

						if ( rit == states.end() )
						{
							states.emplace( state.layout, state );
						}
						else
						{
							rit->second.state.access |= state.state.access;
						}
""")]),
('fg-getsub-ret', [(FG, """		if ( states.empty() )
		{
			return { VK_IMAGE_LAYOUT_UNDEFINED
				, getAccessMask( VK_IMAGE_LAYOUT_UNDEFINED )
				, getStageMask( VK_IMAGE_LAYOUT_UNDEFINED ) };
		}

		return states.begin()->second;
""", """		return states.empty()
			? makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
			: states.begin()->second;
""")]),
('fg-virtual-early', [(FG, """		VkImageSubresourceRange result = range;

		if ( viewType == VK_IMAGE_VIEW_TYPE_3D
			&& ( range.levelCount == 1u
				|| range.levelCount == image.data->info.mipLevels ) )
		{
			result.baseArrayLayer = 0u;
			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
		}

		return result;
""", """		if ( viewType != VK_IMAGE_VIEW_TYPE_3D )
		{
			return range;
		}

		bool const wholeOrSingle = range.levelCount == 1u
			|| range.levelCount == getMipLevels( image );

		if ( !wholeOrSingle )
		{
			return range;
		}

		VkImageSubresourceRange result{ range };
		result.layerCount = std::max( getExtent( image ).depth >> range.baseMipLevel, 1u );
		result.baseArrayLayer = 0u;
		return result;
""")]),
('fg-match-tern', [(FG, """			auto result = lhsType == rhsType;

			if ( !result )
			{
				result = match( getVirtualRange( image, lhsType, lhsRange )
					, getVirtualRange( image, rhsType, rhsRange ) );
			}
			else
			{
				result = match( lhsRange, rhsRange );
			}

			return result;
""", """			return lhsType == rhsType
				? match( lhsRange, rhsRange )
				: match( getVirtualRange( image, lhsType, lhsRange )
					, getVirtualRange( image, rhsType, rhsRange ) );
""")]),
('fg-match-chain', [(FG, """			return ( ( lhsRange.aspectMask & rhsRange.aspectMask ) != 0 )
				&& lhsRange.baseArrayLayer == rhsRange.baseArrayLayer
				&& lhsRange.layerCount == rhsRange.layerCount
				&& lhsRange.baseMipLevel == rhsRange.baseMipLevel
				&& lhsRange.levelCount == rhsRange.levelCount;
""", """			if ( ( lhsRange.aspectMask & rhsRange.aspectMask ) == 0 )
			{
				return false;
			}

			if ( lhsRange.baseArrayLayer != rhsRange.baseArrayLayer
				|| lhsRange.layerCount != rhsRange.layerCount )
			{
				return false;
			}

			return lhsRange.baseMipLevel == rhsRange.baseMipLevel
				&& lhsRange.levelCount == rhsRange.levelCount;
""")]),
('fg-resolve-if', [(FG, """		return view.data->source.empty()
			? view
			: view.data->source[passIndex];
""", """		if ( view.data->source.empty() )
		{
			return view;
		}

		return view.data->source[passIndex];
""")]),
('fg-sort-none', [(FG, """					if ( !std::all_of( pass->passDepends.begin()
						, pass->passDepends.end()
						, [&sortedPasses]( FramePass const * lookup )
						{
							return sortedPasses.end() != std::find( sortedPasses.begin()
								, sortedPasses.end()
								, lookup );
						} ) )
""", """					if ( std::any_of( pass->passDepends.begin()
						, pass->passDepends.end()
						, [&sortedPasses]( FramePass const * lookup )
						{
							return sortedPasses.end() == std::find( sortedPasses.begin()
								, sortedPasses.end()
								, lookup );
						} ) )
""")]),
('fg-sort-first', [(FG, """			for ( auto & pass : passes )
			{
				if ( pass->passDepends.empty() )
				{
					sortedPasses.push_back( pass );
				}
				else
				{
					unsortedPasses.push_back( pass );
				}
			}
""", """			for ( auto & pass : passes )
			{
				auto & target = pass->passDepends.empty() ? sortedPasses : unsortedPasses;
				target.push_back( pass );
			}
""")]),
('fg-sort-move', [(FG, """				FramePassArray currentPasses;
				std::swap( currentPasses, unsortedPasses );
				bool added = false;
""", """				FramePassArray currentPasses = std::move( unsortedPasses );
				unsortedPasses.clear();
				bool added = false;
""")]),
('fg-sort-count', [(FG, """			while ( !unsortedPasses.empty() )
			{
				FramePassArray currentPasses;
				std::swap( currentPasses, unsortedPasses );
				bool added = false;
""", """			while ( unsortedPasses.size() > 0u )
			{
				auto currentPasses = unsortedPasses;
				unsortedPasses = FramePassArray{};
				bool added = false;
""")]),
('gr-count-loop', [(GR, """			return std::accumulate( group->groups.begin()
				, group->groups.end()
				, uint32_t( group->passes.size() )
				, []( uint32_t val, FramePassGroupPtr const & lookup )
				{
					return val + countPasses( lookup.get() );
				} );
""", """			auto result = uint32_t( group->passes.size() );

			for ( auto & lookup : group->groups )
			{
				result += countPasses( lookup.get() );
			}

			return result;
""")]),
('gr-counts-loop', [(GR, """			return std::accumulate( group->groups.begin()
				, group->groups.end()
				, uint32_t( group->groups.size() )
				, []( uint32_t val, FramePassGroupPtr const & lookup )
				{
					return val + countGroups( lookup.get() );
				} );
""", """			auto result = 0u;

			for ( auto & lookup : group->groups )
			{
				result += 1u + countGroups( lookup.get() );
			}

			return result;
""")]),
('gr-outer-simple', [(GR, """			while ( group && group->parent )
			{
				group = group->parent;
			}

			return group;
""", """			while ( group->parent )
			{
				group = group->parent;
			}

			return group;
""")]),
('gr-outer-rec', [(GR, """			while ( group && group->parent )
			{
				group = group->parent;
			}

			return group;
""", """			if ( !group || !group->parent )
			{
				return group;
			}

			return getOutermost( group->parent );
""")]),
('gr-create-unique', [(GR, """		auto count = group::countPasses( group::getOutermost( this ) );
		passes.emplace_back( new FramePass{ *this
			, m_graph
			, count + 1u
			, passName
			, std::move( runnableCreator ) } );
		return *passes.back();
""", """		auto const passId = group::countPasses( group::getOutermost( this ) ) + 1u;
		FramePassPtr pass{ new FramePass{ *this
			, m_graph
			, passId
			, passName
			, std::move( runnableCreator ) } };
		auto & result = *pass;
		passes.push_back( std::move( pass ) );
		return result;
""")]),
('gr-group-early', [(GR, """		if ( it == groups.end() )
		{
			auto count = group::countGroups( group::getOutermost( this ) );
			groups.emplace_back( new FramePassGroup{ *this, count + 1u, groupName } );
			it = std::next( groups.begin(), ptrdiff_t( groups.size() - 1u ) );
		}

		return **it;
""", """		if ( it != groups.end() )
		{
			return **it;
		}

		auto count = group::countGroups( group::getOutermost( this ) );
		groups.emplace_back( new FramePassGroup{ *this, count + 1u, groupName } );
		return *groups.back();
""")]),
('gr-group-loop', [(GR, """		auto it = std::find_if( groups.begin()
			, groups.end()
			, [&groupName]( FramePassGroupPtr const & lookup )
			{
				return lookup->getName() == groupName;
			} );

		if ( it == groups.end() )
		{
			auto count = group::countGroups( group::getOutermost( this ) );
			groups.emplace_back( new FramePassGroup{ *this, count + 1u, groupName } );
			it = std::next( groups.begin(), ptrdiff_t( groups.size() - 1u ) );
		}

		return **it;
""", """		for ( auto & group : groups )
		{
			if ( group->getName() == groupName )
			{
				return *group;
			}
		}

		auto count = group::countGroups( group::getOutermost( this ) );
		groups.emplace_back( new FramePassGroup{ *this, count + 1u, groupName } );
		return *groups.back();
""")]),
('gr-has-any', [(GR, """		return passes.end() != std::find_if( passes.begin()
			, passes.end()
			, [&passName]( FramePassPtr const & lookup )
			{
				return lookup->getName() == passName;
			} );
""", """		return std::any_of( passes.begin()
			, passes.end()
			, [&passName]( FramePassPtr const & lookup )
			{
				return passName == lookup->getName();
			} );
""")]),
('gr-has-loop', [(GR, """		return passes.end() != std::find_if( passes.begin()
			, passes.end()
			, [&passName]( FramePassPtr const & lookup )
			{
				return lookup->getName() == passName;
			} );
""", """		for ( auto & pass : passes )
		{
			if ( pass->getName() == passName )
			{
				return true;
			}
		}

		return false;
""")]),
('gr-list-index', [(GR, """		for ( auto & pass : passes )
		{
			result.push_back( pass.get() );
		}
""", """		result.reserve( result.size() + passes.size() );

		for ( size_t i = 0u; i < passes.size(); ++i )
		{
			result.emplace_back( passes[i].get() );
		}
""")]),
('gr-list-transform', [(GR, """		for ( auto & pass : passes )
		{
			result.push_back( pass.get() );
		}
""", """		std::transform( passes.begin()
			, passes.end()
			, std::back_inserter( result )
			, []( FramePassPtr const & pass )
			{
				return pass.get();
			} );
""")]),
('gr-full-if', [(GR, """		return ( &m_graph.getDefaultGroup() == this )
			? m_graph.getName()
			: parent->getFullName() + "/" + getName();
""", """		if ( this == &m_graph.getDefaultGroup() )
		{
			return m_graph.getName();
		}

		auto result = parent->getFullName();
		result += "/";
		result += getName();
		return result;
""")]),
('gr-final-inline', [(GR, """		addInput( view.data->image
			, view.data->info.viewType
			, view.data->info.subresourceRange
			, outputLayout );
""", """		m_graph.addInput( view, outputLayout );
""")]),
('tm-stop-inline', [(TM, """		auto current = Clock::now();
		m_cpuTime += ( current - m_cpuSaveTime );
""", """		m_cpuTime += Clock::now() - m_cpuSaveTime;
""")]),
('tm-retrieve-early', [(TM, """		auto before = Clock::now();
		m_gpuTime = 0ns;

		if ( auto & query = m_queries.front(); query.started && query.written )
		{
""", """		auto before = Clock::now();
		auto & query = m_queries[0];
		m_gpuTime = 0ns;

		if ( query.written && query.started )
		{
""")]),
('tm-retrieve-assign', [(TM, """			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) * period ) };
			m_gpuTime += gpuTime;

			query.started = false;
			query.written = false;
""", """			query.written = false;
			query.started = false;
			auto const ticks = values[1] - values[0];
			m_gpuTime = Nanoseconds{ uint64_t( float( ticks ) * period ) };
""")]),
('tm-begin-offset', [(TM, """		auto const & query = m_queries.front();
		m_context.vkCmdResetQueryPool( commandBuffer
			, m_timerQueries
			, query.offset
			, 2u );
		m_context.vkCmdWriteTimestamp( commandBuffer
			, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT
			, m_timerQueries
			, query.offset + 0u );
""", """		auto const first = m_queries[0].offset;
		m_context.vkCmdResetQueryPool( commandBuffer
			, m_timerQueries
			, first
			, 2u );
		m_context.vkCmdWriteTimestamp( commandBuffer
			, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT
			, m_timerQueries
			, first );
""")]),
('tm-end-direct', [(TM, """		auto & query = m_queries.front();
		m_context.vkCmdWriteTimestamp( commandBuffer
			, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT
			, m_timerQueries
			, query.offset + 1u );
		query.written = true;
""", """		m_queries.front().written = true;
		m_context.vkCmdWriteTimestamp( commandBuffer
			, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT
			, m_timerQueries
			, m_queries.front().offset + 1u );
""")]),
('tm-dtor-nest', [(TM, """			if ( m_ownPool && m_timerQueries )
			{
				crgUnregisterObject( m_context, m_timerQueries );
				m_context.vkDestroyQueryPool( m_context.device
					, m_timerQueries
					, m_context.allocator );
			}
""", """			if ( !m_timerQueries || !m_ownPool )
			{
				return;
			}

			crgUnregisterObject( m_context, m_timerQueries );
			m_context.vkDestroyQueryPool( m_context.device
				, m_timerQueries
				, m_context.allocator );
""")]),
('tm-block-exchange', [(TM, """		: m_timer{ block.m_timer }
	{
		block.m_timer = {};
	}
""", """		: m_timer{ std::exchange( block.m_timer, nullptr ) }
	{
	}
"""), (TM, "#include <cassert>\n", "#include <cassert>\n#include <utility>\n")]),
('gb-find-loop', [(GB, """			GraphAdjacentNode result{};
			auto it = std::find_if( nodes.begin()
				, nodes.end()
				, [pass]( auto & lookup )
				{
					return getFramePass( *lookup ) == pass;
				} );

			assert( it != nodes.end() );
			result = it->get();
			return result;
""", """			for ( auto & node : nodes )
			{
				if ( pass == getFramePass( *node ) )
				{
					return node.get();
				}
			}

			assert( false );
			return nullptr;
""")]),
('gb-find-simple', [(GB, """			GraphAdjacentNode result{};
			auto it = std::find_if""", """			auto it = std::find_if"""), (GB, """			result = it->get();
			return result;
""", """			return it->get();
""")]),
('gb-build-continue', [(GB, """				GraphAdjacentNode inputAdjNode = findNode( transition.inputAttach.pass
					, nodes );

				if ( inputAdjNode
					&& outputAdjNode
					&& transition.inputAttach.pass->dependsOn( *transition.outputAttach.pass, transition.data, depsCache ) )
				{
					outputAdjNode->attachNode( inputAdjNode
						, makeTransition( transition ) );
				}
""", """				GraphAdjacentNode inputAdjNode = findNode( transition.inputAttach.pass
					, nodes );

				if ( !inputAdjNode || !outputAdjNode )
				{
					continue;
				}

				if ( transition.inputAttach.pass->dependsOn( *transition.outputAttach.pass, transition.data, depsCache ) )
				{
					outputAdjNode->attachNode( inputAdjNode
						, makeTransition( transition ) );
				}
""")]),
('gb-root-index', [(GB, """		for ( auto & node : nodes )
		{
			if ( !node->hasPrev() )
			{
				rootNode.attachNode( node.get(), {} );
			}
		}
""", """		for ( size_t i = 0u; i < nodes.size(); ++i )
		{
			if ( nodes[i]->hasPrev() )
			{
				continue;
			}

			rootNode.attachNode( nodes[i].get(), AttachmentTransitions{} );
		}
""")]),
('gb-make', [(GB, """			return { { transition }, {} };
""", """			AttachmentTransitions result{};
			result.viewTransitions.push_back( transition );
			return result;
""")]),
('gn-add-helper', [(GN, """	void GraphNode::addAttaches( ConstGraphAdjacentNode prev
""", """	template< typename TransitionT >
	static bool addTransitions( std::vector< TransitionT > & mine
		, std::vector< TransitionT > & attaches )
	{
		bool result = false;

		for ( auto & attach : attaches )
		{
			if ( std::find( mine.begin(), mine.end(), attach ) == mine.end() )
			{
				mine.push_back( std::move( attach ) );
				result = true;
			}
		}

		return result;
	}

	void GraphNode::addAttaches( ConstGraphAdjacentNode prev
"""), (GN, """		bool dirty = false;
		auto * mine = &this->inputAttaches[prev];

		for ( auto & attach : inAttaches.viewTransitions )
		{
			auto it = std::find( mine->viewTransitions.begin()
				, mine->viewTransitions.end()
				, attach );

			if ( it == mine->viewTransitions.end() )
			{
				mine->viewTransitions.push_back( std::move( attach ) );
				dirty = true;
			}
		}

		for ( auto & attach : inAttaches.bufferTransitions )
		{
			auto it = std::find( mine->bufferTransitions.begin()
				, mine->bufferTransitions.end()
				, attach );

			if ( it == mine->bufferTransitions.end() )
			{
				mine->bufferTransitions.push_back( std::move( attach ) );
				dirty = true;
			}
		}

		if ( dirty )
		{
			*mine = mergeIdenticalTransitions( std::move( *mine ) );
		}
""", """		auto & mine = this->inputAttaches[prev];
		bool const views = addTransitions( mine.viewTransitions, inAttaches.viewTransitions );
		bool const buffers = addTransitions( mine.bufferTransitions, inAttaches.bufferTransitions );

		if ( views || buffers )
		{
			mine = mergeIdenticalTransitions( mine );
		}
""")]),
('gn-add-copy', [(GN, """			auto it = std::find( mine->viewTransitions.begin()
				, mine->viewTransitions.end()
				, attach );

			if ( it == mine->viewTransitions.end() )
			{
				mine->viewTransitions.push_back( std::move( attach ) );
				dirty = true;
			}
""", """			bool const known = std::any_of( mine->viewTransitions.begin()
				, mine->viewTransitions.end()
				, [&attach]( ViewTransition const & lookup )
				{
					return lookup == attach;
				} );

			if ( known )
			{
				continue;
			}

			mine->viewTransitions.push_back( attach );
			dirty = true;
"""), (GN, '#include "RenderGraph/FramePass.hpp"\n', '#include "RenderGraph/FramePass.hpp"\n\n#include <algorithm>\n')]),
('gn-attach-order', [(GN, """		if ( auto it = std::find( next.begin()
			, next.end()
			, nextNode ); it == next.end() )
		{
			this->next.push_back( nextNode );
		}

		nextNode->addAttaches( this
			, std::move( nextInputAttaches ) );
""", """		nextNode->addAttaches( this
			, std::move( nextInputAttaches ) );

		if ( std::find( next.begin(), next.end(), nextNode ) == next.end() )
		{
			next.emplace_back( nextNode );
		}
""")]),
('gn-attach-count', [(GN, """		if ( auto it = std::find( next.begin()
			, next.end()
			, nextNode ); it == next.end() )
		{
			this->next.push_back( nextNode );
		}
""", """		bool found = false;

		for ( auto & lookup : next )
		{
			if ( lookup == nextNode )
			{
				found = true;
				break;
			}
		}

		if ( !found )
		{
			this->next.push_back( nextNode );
		}
""")]),
('gn-input-at', [(GN, """		auto it = inputAttaches.find( pred );
		assert( it != inputAttaches.end() );
		return it->second;
""", """		return inputAttaches.at( pred );
""")]),
('gn-frame-tern', [(GN, """		if ( !isFramePassNode( node ) )
		{
			return nullptr;
		}

		return &nodeCast< FramePassNode >( node ).getFramePass();
""", """		return isFramePassNode( node )
			? &nodeCast< FramePassNode >( node ).getFramePass()
			: nullptr;
""")]),
('ll-add-range', [(LL, """		for ( auto & state : data.images )
		{
			images.insert( state );
		}
""", """		images.insert( data.images.begin(), data.images.end() );
""")]),
('ll-add-emplace', [(LL, """		for ( auto & state : data.images )
		{
			images.insert( state );
		}
""", """		for ( auto & [id, layers] : data.images )
		{
			images.emplace( id, layers );
		}
""")]),
('ll-set-index', [(LL, """		auto range = getVirtualRange( image
			, viewType
			, subresourceRange );
		auto [it, _] = images.try_emplace( image.id );
		addSubresourceRangeLayout( it->second
			, range
			, layoutState );
""", """		auto & layers = images[image.id];
		addSubresourceRangeLayout( layers
			, getVirtualRange( image, viewType, subresourceRange )
			, layoutState );
""")]),
('ll-get-early', [(LL, """		if ( auto imageIt = images.find( image.id ); imageIt != images.end() )
		{
			auto range = getVirtualRange( image
				, viewType
				, subresourceRange );
			return getSubresourceRangeLayout( imageIt->second
				, range );
		}

		return { VK_IMAGE_LAYOUT_UNDEFINED, { 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT } };
""", """		auto range = getVirtualRange( image
			, viewType
			, subresourceRange );
		auto imageIt = images.find( image.id );

		if ( imageIt == images.end() )
		{
			LayoutState result{};
			result.layout = VK_IMAGE_LAYOUT_UNDEFINED;
			result.state.access = 0u;
			result.state.pipelineStage = VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
			return result;
		}

		return getSubresourceRangeLayout( imageIt->second, range );
""")]),
('ll-get-count', [(LL, """		if ( auto imageIt = images.find( image.id ); imageIt != images.end() )
		{
			auto range = getVirtualRange( image
				, viewType
				, subresourceRange );
			return getSubresourceRangeLayout( imageIt->second
				, range );
		}
""", """		if ( images.count( image.id ) != 0u )
		{
			return getSubresourceRangeLayout( images.at( image.id )
				, getVirtualRange( image, viewType, subresourceRange ) );
		}
""")]),
('at-merge-any', [(AT, """				auto it = std::find( result.begin(), result.end(), transition );

				if ( it == result.end() )
				{
					result.push_back( transition );
				}
""", """				if ( std::none_of( result.begin()
					, result.end()
					, [&transition]( TransitionT const & lookup )
					{
						return lookup == transition;
					} ) )
				{
					result.push_back( transition );
				}
""")]),
('at-merge-fields', [(AT, """		AttachmentTransitions result{};
		result.viewTransitions = attTran::mergeIdenticalTransitionsT( std::move( transitions.viewTransitions ) );
		result.bufferTransitions = attTran::mergeIdenticalTransitionsT( std::move( transitions.bufferTransitions ) );
		return result;
""", """		return { attTran::mergeIdenticalTransitionsT( transitions.viewTransitions )
			, attTran::mergeIdenticalTransitionsT( transitions.bufferTransitions ) };
""")]),
('at-eq-order', [(AT, """		return match( *lhs.data.data, *rhs.data.data )
			&& lhs.outputAttach == rhs.outputAttach
			&& lhs.inputAttach == rhs.inputAttach;
""", """		if ( !match( *lhs.data.data, *rhs.data.data ) )
		{
			return false;
		}

		return lhs.inputAttach == rhs.inputAttach
			&& lhs.outputAttach == rhs.outputAttach;
""")]),
]
E = [(e[0], [(x[0], x[1], x[2].replace('[]( FramePass * pass )', '[]( FramePass const * pass )')) + tuple(x[3:]) for x in e[1]]) for e in E]
