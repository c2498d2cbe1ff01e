// Reference models: ordering of the passes, compilation, states kept by a graph.
#include "spec.hpp"
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/GraphNode.hpp>
#include "GraphBuilder.hpp"
#include "FramePassDependenciesBuilder.hpp"

namespace spec
{
	FramePassArray sortPasses( FramePassArray const & passes )
	{
		FramePassArray sorted;
		FramePassArray rest;
		for ( auto & pass : passes )
		{
			if ( pass->passDepends.empty() )
				sorted.push_back( pass );
			else
				rest.push_back( pass );
		}
		if ( sorted.empty() )
		{
			sorted.push_back( rest.front() );
			rest.erase( rest.begin() );
		}
		while ( !rest.empty() )
		{
			FramePassArray current;
			std::swap( current, rest );
			bool added = false;
			for ( auto & pass : current )
			{
				if ( !std::all_of( pass->passDepends.begin(), pass->passDepends.end()
					, [&sorted]( FramePass const * lookup ){ return std::find( sorted.begin(), sorted.end(), lookup ) != sorted.end(); } ) )
				{
					rest.push_back( pass );
				}
				else if ( auto it = std::find_if( sorted.begin(), sorted.end(), [&pass]( FramePass const * lookup ){ return lookup->dependsOn( *pass ); } ); it != sorted.end() )
				{
					sorted.insert( it, pass );
					added = true;
				}
				else if ( auto rit = std::find_if( sorted.rbegin(), sorted.rend(), [&pass]( FramePass const * lookup ){ return pass->dependsOn( *lookup ); } ); rit != sorted.rend() )
				{
					sorted.insert( rit.base(), pass );
					added = true;
				}
			}
			if ( !added )
				throw std::runtime_error{ "Couldn't sort passes" };
		}
		return sorted;
	}
	RunnableGraphPtr compile( FrameGraph & self, GraphContext & context )
	{
		FramePassArray passes;
		self.getDefaultGroup().listPasses( passes );
		if ( passes.empty() )
			throw std::runtime_error{ "No FramePass registered." };
		passes = sortPasses( passes );
		GraphNodePtrArray nodes;
		for ( auto & pass : passes )
			nodes.push_back( std::make_unique< FramePassNode >( *pass ) );
		FramePassDependencies inputs;
		FramePassDependencies outputs;
		AttachmentTransitions transitions;
		PassDependencyCache images;
		PassDependencyCache buffers;
		builder::buildPassAttachDependencies( nodes, images, buffers, inputs, outputs, transitions );
		RootNode root{ self };
		builder::buildGraph( root, nodes, images, buffers, transitions );
		return std::make_unique< RunnableGraph >( self, transitions, std::move( nodes ), std::move( root ), context );
	}
}
