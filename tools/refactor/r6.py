RP = 'source/RenderGraph/RunnablePass.cpp'
RC = 'source/RenderGraph/RecordContext.cpp'
E = [
('rp-state-again', [(RP, """						currentState.access = VK_ACCESS_TRANSFER_WRITE_BIT;
						currentState.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
					}

					context.memoryBarrier( commandBuffer
						, buffer""", """						currentState = context.getAccessState( buffer, range );
					}

					context.memoryBarrier( commandBuffer
						, buffer""")]),
('rp-buffer-short', [(RP, """						, buffer
						, range
						, currentState.access
						, currentState.pipelineStage
						, { attach.getAccessMask(), attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } );
""", """						, buffer
						, range
						, AccessState{ attach.getAccessMask(), attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } );
""")]),
('rp-image-state-again', [(RP, """						currentLayout.layout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
						currentLayout.state.access = VK_ACCESS_TRANSFER_WRITE_BIT;
						currentLayout.state.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
""", """						currentLayout = crg::makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
""")]),
]
