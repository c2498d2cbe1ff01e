S='source/RenderGraph/'
DB=S+'FramePassDependenciesBuilder.cpp'
E=[
('db-range', [(DB, "			return value >= left && value < left + count;", "			return !( value < left ) && value - left < count;")]),
('db-range2', [(DB, "			return value >= left && value < left + count;", """			auto const right = left + count;
			return left <= value && value < right;""")]),
('db-inputview', [(DB, """			auto result = &rhs;

			if ( lhs == rhs
				|| isSingleMipView( lhs, rhs ) )
			{
				result = &lhs;
			}

			return *result;""", """			return ( lhs == rhs || isSingleMipView( lhs, rhs ) )
				? lhs
				: rhs;""")]),
('db-outputview', [(DB, """			auto result = &lhs;

			if ( isSingleMipView( lhs, rhs ) )
			{
				result = &rhs;
			}

			return *result;""", """			if ( !isSingleMipView( lhs, rhs ) )
			{
				return lhs;
			}

			return rhs;""")]),
('db-split', [(DB, """				AttachmentArray result;

				if ( attach.view().data->source.empty() )
				{
					result.push_back( attach );
				}
				else
				{
					for ( auto & view : attach.view().data->source )
					{
						result.emplace_back( view, attach );
					}
				}

				return result;""", """				auto const & sources = attach.view().data->source;

				if ( sources.empty() )
				{
					return { attach };
				}

				AttachmentArray result;
				result.reserve( sources.size() );

				for ( auto const & source : sources )
				{
					result.push_back( Attachment{ source, attach } );
				}

				return result;""")]),
('db-isinput', [(DB, """				return attach.isInput()
					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer()
						|| attach.isStorageBufferView() || attach.isUniformBufferView() || attach.isTransitionBufferView() );""", """				if ( !attach.isInput() )
				{
					return false;
				}

				bool const isPlain = attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer();
				bool const isView = attach.isStorageBufferView() || attach.isUniformBufferView() || attach.isTransitionBufferView();
				return isPlain || isView;""")]),
('db-isoutput', [(DB, """				return attach.isOutput()
					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() );""", """				bool const isStorage = attach.isStorageBufferView() || attach.isStorageBuffer();
				return isStorage && attach.isOutput();""")]),
('db-overlap-range', [(DB, """			return areIntersecting( lhs.baseMipLevel
				, lhs.levelCount
				, rhs.baseMipLevel
				, rhs.levelCount )
				&& areIntersecting( lhs.baseArrayLayer
					, lhs.layerCount
					, rhs.baseArrayLayer
					, rhs.layerCount );""", """			bool const layers = areIntersecting( lhs.baseArrayLayer, lhs.layerCount, rhs.baseArrayLayer, rhs.layerCount );
			bool const levels = areIntersecting( lhs.baseMipLevel, lhs.levelCount, rhs.baseMipLevel, rhs.levelCount );
			return levels && layers;""")]),
('db-overlap-view', [(DB, """			return lhs.image == rhs.image
				&& areIntersecting( getVirtualRange( lhs.image, lhs.info.viewType, lhs.info.subresourceRange )
					, getVirtualRange( rhs.image, rhs.info.viewType, rhs.info.subresourceRange ) );""", """			if ( lhs.image != rhs.image )
			{
				return false;
			}

			auto const lhsRange = getVirtualRange( lhs.image, lhs.info.viewType, lhs.info.subresourceRange );
			auto const rhsRange = getVirtualRange( rhs.image, rhs.info.viewType, rhs.info.subresourceRange );
			return areIntersecting( lhsRange, rhsRange );""")]),
('db-insertattach', [(DB, """			auto it = std::find_if( cont.begin()
				, cont.end()
				, [&attach]( AttachesT< DataT > const & lookup )
				{
					return lookup.data == AttachDataTraitsT< DataT >::get( attach );
				} );

			if ( cont.end() == it )
			{
				cont.push_back( AttachesT< DataT >{ AttachDataTraitsT< DataT >::get( attach ) } );
				it = std::prev( cont.end() );
			}

			auto attachesIt = std::find( it->attaches.begin()
				, it->attaches.end()
				, attach );

			if ( attachesIt == it->attaches.end() )
			{
				it->attaches.push_back( attach );
			}""", """			auto const data = AttachDataTraitsT< DataT >::get( attach );
			auto it = std::find_if( cont.begin()
				, cont.end()
				, [&data]( AttachesT< DataT > const & lookup )
				{
					return lookup.data == data;
				} );

			if ( it == cont.end() )
			{
				it = cont.insert( cont.end(), AttachesT< DataT >{ data } );
			}

			auto & attaches = it->attaches;

			if ( std::find( attaches.begin(), attaches.end(), attach ) == attaches.end() )
			{
				attaches.push_back( attach );
			}""")]),
('db-insertattach2', [(DB, """			if ( cont.end() == it )
			{
				cont.push_back( AttachesT< DataT >{ AttachDataTraitsT< DataT >::get( attach ) } );
				it = std::prev( cont.end() );
			}

			auto attachesIt = std::find( it->attaches.begin()
				, it->attaches.end()
				, attach );

			if ( attachesIt == it->attaches.end() )
			{
				it->attaches.push_back( attach );
			}""", """			if ( cont.end() == it )
			{
				cont.push_back( AttachesT< DataT >{ AttachDataTraitsT< DataT >::get( attach ), { attach } } );
				return;
			}

			if ( std::none_of( it->attaches.begin()
				, it->attaches.end()
				, [&attach]( Attachment const & lookup )
				{
					return lookup == attach;
				} ) )
			{
				it->attaches.push_back( attach );
			}""")]),
('db-source-nested', [(DB, """			if ( processAttach( sourceView, attachView )
				&& lookup.attaches.end() == std::find( lookup.attaches.begin()
					, lookup.attaches.end()
					, attach ) )
			{
				lookup.attaches.push_back( attach );
			}""", """			if ( !processAttach( sourceView, attachView ) )
			{
				return;
			}

			auto & attaches = lookup.attaches;
			auto it = std::find( attaches.begin(), attaches.end(), attach );

			if ( it == attaches.end() )
			{
				attaches.push_back( attach );
			}""")]),
('db-process-noarr', [(DB, """			FramePassArray passes;
			auto attaches = AttachDataTraitsT< DataT >::split( attach );

			for ( auto & splitAttach : attaches )
			{
				for ( auto & lookup : cont )
				{
					processAttachSource( lookup
						, splitAttach
						, lookup.data
						, AttachDataTraitsT< DataT >::get( splitAttach )
						, processAttach );
				}
""", """			for ( auto const & splitAttach : AttachDataTraitsT< DataT >::split( attach ) )
			{
				auto const data = AttachDataTraitsT< DataT >::get( splitAttach );

				for ( auto & lookup : cont )
				{
					processAttachSource( lookup, splitAttach, lookup.data, data, processAttach );
				}
""")]),
('db-input-continue', [(DB, """				if ( AttachDataTraitsT< DataT >::isInput( attach ) )
				{
					processAttach< DataT >( attach
						, cont
						, all
						, []( DataT const & lookupView
							, DataT const & attachView )
						{
							return areOverlapping( lookupView, attachView );
						} );
				}""", """				if ( !AttachDataTraitsT< DataT >::isInput( attach ) )
				{
					continue;
				}

				processAttach< DataT >( attach
					, cont
					, all
					, []( DataT const & lhs, DataT const & rhs )
					{
						return areOverlapping( lhs, rhs );
					} );""")]),
('db-output-index', [(DB, """			for ( auto & attach : attachs )
			{
				if ( AttachDataTraitsT< DataT >::isOutput( attach ) )
				{
					processAttach< DataT >( attach""", """			for ( size_t i = 0u; i < attachs.size(); ++i )
			{
				auto const & attach = attachs[i];

				if ( AttachDataTraitsT< DataT >::isOutput( attach ) )
				{
					processAttach< DataT >( attach""")]),
('db-has', [(DB, """			return transitions.end() != std::find( transitions.begin()
				, transitions.end()
				, transition );""", """			return std::any_of( transitions.begin()
				, transitions.end()
				, [&transition]( DataTransitionT< DataT > const & lookup )
				{
					return lookup == transition;
				} );""")]),
('db-insertpass', [(DB, """			auto passIt = std::find_if( transitions.begin()
				, transitions.end()
				, [pass]( FramePassTransitions const & lookup )
				{
					return lookup.pass == pass;
				} );

			if ( passIt == transitions.end() )
			{
				transitions.push_back( FramePassTransitions{ pass, {} } );
				return transitions.back();
			}

			return *passIt;""", """			for ( auto & lookup : transitions )
			{
				if ( lookup.pass == pass )
				{
					return lookup;
				}
			}

			return transitions.emplace_back( FramePassTransitions{ pass, {} } );""")]),
('db-insertpass2', [(DB, """			if ( passIt == transitions.end() )
			{
				transitions.push_back( FramePassTransitions{ pass, {} } );
				return transitions.back();
			}

			return *passIt;""", """			if ( passIt != transitions.end() )
			{
				return *passIt;
			}

			FramePassTransitions entry{ pass, {} };
			transitions.push_back( std::move( entry ) );
			return transitions.back();""")]),
('db-dependson', [(DB, """			return transition.inputAttach.pass
				&& transition.outputAttach.pass
				&& transition.inputAttach.pass->dependsOn( *transition.outputAttach.pass
					, transition.data
					, cache );""", """			auto const inputPass = transition.inputAttach.pass;
			auto const outputPass = transition.outputAttach.pass;

			if ( inputPass == nullptr || outputPass == nullptr )
			{
				return false;
			}

			return inputPass->dependsOn( *outputPass, transition.data, cache );""")]),
('db-insertearly', [(DB, """			if ( !hasTransition( transitions, transition ) )
			{
				auto it = std::find_if( transitions.begin()
					, transitions.end()
					, [&transition, &cache]( DataTransitionT< DataT > const & lookup )
					{
						return dependsOn( lookup, transition, cache );
					} );

				if ( it != transitions.end() )
				{
					transitions.insert( it, transition );
				}
				else
				{
					auto rit = std::find_if( transitions.rbegin()
						, transitions.rend()
						, [&transition, &cache]( DataTransitionT< DataT > const & lookup )
						{
							return dependsOn( transition, lookup, cache );
						} );

					if ( rit != transitions.rend() )
					{
						transitions.insert( rit.base(), transition );
					}
					else
					{
						transitions.push_back( transition );
					}
				}
			}""", """			if ( hasTransition( transitions, transition ) )
			{
				return;
			}

			auto it = std::find_if( transitions.begin()
				, transitions.end()
				, [&transition, &cache]( DataTransitionT< DataT > const & lookup )
				{
					return dependsOn( lookup, transition, cache );
				} );

			if ( it != transitions.end() )
			{
				transitions.insert( it, transition );
				return;
			}

			auto rit = std::find_if( transitions.rbegin()
				, transitions.rend()
				, [&transition, &cache]( DataTransitionT< DataT > const & lookup )
				{
					return dependsOn( transition, lookup, cache );
				} );

			if ( rit == transitions.rend() )
			{
				transitions.push_back( transition );
				return;
			}

			transitions.insert( rit.base(), transition );""")]),
('db-remaining-factor', [(DB, """			if ( attach.isColourInputAttach()
				|| attach.isSampledView() )
			{
				ViewTransition transition{ attach.view(), Attachment::createDefault( attach.view() ), attach };
				insertTransition( transition, cache, transitions.viewTransitions );
				insertTransition( transition, cache, allTransitions );
			}
			else
			{
				ViewTransition transition{ attach.view(), attach, Attachment::createDefault( attach.view() ) };
				insertTransition( transition, cache, transitions.viewTransitions );
				insertTransition( transition, cache, allTransitions );
			}""", """			bool const isInput = attach.isSampledView() || attach.isColourInputAttach();
			auto const external = Attachment::createDefault( attach.view() );
			ViewTransition const transition = isInput
				? ViewTransition{ attach.view(), external, attach }
				: ViewTransition{ attach.view(), attach, external };
			insertTransition( transition, cache, transitions.viewTransitions );
			insertTransition( transition, cache, allTransitions );""")]),
('db-remaining-buf', [(DB, """			if ( attach.isInput() )
			{
				BufferTransition transition{ attach.bufferAttach.buffer, Attachment::createDefault( attach.bufferAttach.buffer ), attach };
				insertTransition( transition, cache, transitions.bufferTransitions );
				insertTransition( transition, cache, allTransitions );
			}
			else
			{""", """			auto const & buffer = attach.bufferAttach.buffer;
			auto insert = [&]( BufferTransition const & transition )
			{
				insertTransition( transition, cache, transitions.bufferTransitions );
				insertTransition( transition, cache, allTransitions );
			};

			if ( attach.isInput() )
			{
				insert( BufferTransition{ buffer, Attachment::createDefault( buffer ), attach } );
			}
			else
			{""")]),
('db-remaining-dispatch', [(DB, """			if ( attach.isImage() )
			{
				addRemainingDependency( attach
					, cache
					, inputTransitions
					, allTransitions.viewTransitions );
			}
			else
			{
				addRemainingDependency( attach
					, cache
					, inputTransitions
					, allTransitions.bufferTransitions );
			}""", """			if ( !attach.isImage() )
			{
				addRemainingDependency( attach, cache, inputTransitions, allTransitions.bufferTransitions );
				return;
			}

			addRemainingDependency( attach, cache, inputTransitions, allTransitions.viewTransitions );""")]),
('db-adddep', [(DB, """			DataTransitionT< DataT > inputTransition{ AttachDataTraitsT< DataT >::getInput( outputAttach, inputAttach )
				, outputAttach
				, inputAttach };
			DataTransitionT< DataT > outputTransition{ AttachDataTraitsT< DataT >::getOutput( outputAttach, inputAttach )
				, outputAttach
				, inputAttach };
			insertTransition( inputTransition, cache, AttachDataTraitsT< DataT >::getTransitions( allTransitions ) );

			if ( !match( AttachDataTraitsT< DataT >::get( outputAttach )
				, AttachDataTraitsT< DataT >::get( inputAttach ) ) )
			{
				insertTransition( outputTransition, cache, AttachDataTraitsT< DataT >::getTransitions( allTransitions ) );
			}
""", """			using Traits = AttachDataTraitsT< DataT >;
			DataTransitionT< DataT > const outputTransition{ Traits::getOutput( outputAttach, inputAttach ), outputAttach, inputAttach };
			DataTransitionT< DataT > const inputTransition{ Traits::getInput( outputAttach, inputAttach ), outputAttach, inputAttach };
			auto & all = Traits::getTransitions( allTransitions );
			insertTransition( inputTransition, cache, all );
			bool const sameData = match( Traits::get( outputAttach ), Traits::get( inputAttach ) );

			if ( !sameData )
			{
				insertTransition( outputTransition, cache, all );
			}
""")]),
('db-adddep-order', [(DB, """			auto & inTransitions = insertPass( inputAttach.pass, inputTransitions ).transitions;
			insertTransition( inputTransition, cache, AttachDataTraitsT< DataT >::getTransitions( inTransitions ) );
			auto & outTransitions = insertPass( outputAttach.pass, outputTransitions ).transitions;
			insertTransition( outputTransition, cache, AttachDataTraitsT< DataT >::getTransitions( outTransitions ) );""", """			auto & outTransitions = insertPass( outputAttach.pass, outputTransitions ).transitions;
			auto & inTransitions = insertPass( inputAttach.pass, inputTransitions ).transitions;
			insertTransition( outputTransition, cache, AttachDataTraitsT< DataT >::getTransitions( outTransitions ) );
			insertTransition( inputTransition, cache, AttachDataTraitsT< DataT >::getTransitions( inTransitions ) );""")]),
('db-builddep', [(DB, """			if ( inputAttach.pass->dependsOn( *outputAttach.pass
				, AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach )
				, cache ) )
			{
				addDependency< DataT >( outputAttach
					, inputAttach
					, cache
					, inputTransitions
					, outputTransitions
					, allTransitions );
			}""", """			auto const data = AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach );

			if ( !inputAttach.pass->dependsOn( *outputAttach.pass, data, cache ) )
			{
				return;
			}

			addDependency< DataT >( outputAttach, inputAttach, cache, inputTransitions, outputTransitions, allTransitions );""")]),
('db-pair', [(DB, """			if ( areOverlapping( input.data, output.data ) )
			{
				for ( Attachment const & outputAttach : output.attaches )
				{
					for ( Attachment const & inputAttach : input.attaches )
					{
						buildPassDependency< DataT >( inputAttach
							, outputAttach
							, cache
							, inputTransitions
							, outputTransitions
							, allTransitions );
					}
				}
""", """			if ( !areOverlapping( input.data, output.data ) )
			{
				return;
			}

			{
				for ( auto const & outputAttach : output.attaches )
				{
					for ( auto const & inputAttach : input.attaches )
					{
						buildPassDependency< DataT >( inputAttach, outputAttach, cache, inputTransitions, outputTransitions, allTransitions );
					}
				}
""")]),
('db-pair-index', [(DB, """				for ( Attachment const & outputAttach : output.attaches )
				{
					for ( Attachment const & inputAttach : input.attaches )
					{
						buildPassDependency< DataT >( inputAttach
							, outputAttach
""", """				for ( size_t o = 0u; o < output.attaches.size(); ++o )
				{
					for ( size_t i = 0u; i < input.attaches.size(); ++i )
					{
						buildPassDependency< DataT >( input.attaches[i]
							, output.attaches[o]
""")]),
('db-remaining-loop', [(DB, """			for ( auto & remaining : all )
			{
				for ( auto & attach : remaining.attaches )
				{
					addRemainingDependency( attach
						, cache
						, inputTransitions
						, allTransitions );
				}
			}
""", """			for ( auto const & [data, attaches] : all )
			{
				for ( Attachment const & attach : attaches )
				{
					addRemainingDependency( attach, cache, inputTransitions, allTransitions );
				}
			}
""")]),
('db-main-reorder', [(DB, """			deps::processInputAttachs( pass->images, imgInputs, imgAll );
			deps::processOutputAttachs( pass->images, imgOutputs, imgAll );
			deps::processInputAttachs( pass->buffers, bufInputs, bufAll );
			deps::processOutputAttachs( pass->buffers, bufOutputs, bufAll );
			deps::insertPass( pass, inputTransitions );
			deps::insertPass( pass, outputTransitions );""", """			deps::insertPass( pass, inputTransitions );
			deps::insertPass( pass, outputTransitions );
			deps::processInputAttachs( pass->buffers, bufInputs, bufAll );
			deps::processOutputAttachs( pass->buffers, bufOutputs, bufAll );
			deps::processInputAttachs( pass->images, imgInputs, imgAll );
			deps::processOutputAttachs( pass->images, imgOutputs, imgAll );""")]),
]
