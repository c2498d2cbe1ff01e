// Reference models: nodes of a compiled graph and the edges between them.
#include "spec.hpp"
#include <RenderGraph/GraphVisitor.hpp>
#include "GraphBuilder.cpp"

namespace spec
{
	namespace g = crg::builder::graph;
	GraphNode * nodeOf( FramePass const * pass, GraphNodePtrArray const & nodes )
	{
		if ( !pass )
			return nullptr;
		auto it = std::find_if( nodes.begin(), nodes.end(), [pass]( GraphNodePtr const & lookup ){ return getFramePass( *lookup ) == pass; } );
		return it->get();
	}
	inline AttachmentTransitions only( ViewTransition const & transition )
	{
		AttachmentTransitions result;
		result.viewTransitions.push_back( transition );
		return result;
	}
	inline AttachmentTransitions only( BufferTransition const & transition )
	{
		AttachmentTransitions result;
		result.bufferTransitions.push_back( transition );
		return result;
	}
	template< typename DataT >
	void link( DataTransitionArrayT< DataT > const & transitions, GraphNodePtrArray const & nodes, PassDependencyCache & cache )
	{
		for ( auto & transition : transitions )
		{
			auto from = g::findNode( transition.outputAttach.pass, nodes );
			auto to = g::findNode( transition.inputAttach.pass, nodes );
			if ( !from || !to )
				continue;
			if ( transition.inputAttach.pass->dependsOn( *transition.outputAttach.pass, transition.data, cache ) )
				from->attachNode( to, only( transition ) );
		}
	}
	void linkViews( ViewTransitionArray const & transitions, GraphNodePtrArray const & nodes, PassDependencyCache & cache )
	{
		link( transitions, nodes, cache );
	}
	void linkBuffers( BufferTransitionArray const & transitions, GraphNodePtrArray const & nodes, PassDependencyCache & cache )
	{
		link( transitions, nodes, cache );
	}
	void linkGraph( RootNode & root, GraphNodePtrArray const & nodes, PassDependencyCache & images, PassDependencyCache & buffers, AttachmentTransitions const & transitions )
	{
		g::buildGraph( transitions.viewTransitions, nodes, images );
		g::buildGraph( transitions.bufferTransitions, nodes, buffers );
		for ( auto & node : nodes )
		{
			if ( node->inputAttaches.empty() )
				root.attachNode( node.get(), {} );
		}
	}
	void attachNode( GraphNode & self, GraphNode * next, AttachmentTransitions attaches )
	{
		if ( std::find( self.next.begin(), self.next.end(), next ) == self.next.end() )
			self.next.push_back( next );
		next->addAttaches( &self, std::move( attaches ) );
	}
	void addAttaches( GraphNode & self, GraphNode const * prev, AttachmentTransitions attaches )
	{
		auto & mine = self.inputAttaches[prev];
		bool changed = false;
		for ( auto & attach : attaches.viewTransitions )
		{
			if ( std::find( mine.viewTransitions.begin(), mine.viewTransitions.end(), attach ) == mine.viewTransitions.end() )
			{
				mine.viewTransitions.push_back( attach );
				changed = true;
			}
		}
		for ( auto & attach : attaches.bufferTransitions )
		{
			if ( std::find( mine.bufferTransitions.begin(), mine.bufferTransitions.end(), attach ) == mine.bufferTransitions.end() )
			{
				mine.bufferTransitions.push_back( attach );
				changed = true;
			}
		}
		if ( changed )
			mine = mergeIdenticalTransitions( std::move( mine ) );
	}
	AttachmentTransitions const & inputAttaches( GraphNode const & self, GraphNode const * prev )
	{
		return self.inputAttaches.find( prev )->second;
	}
	FramePass const * passOf( GraphNode const & node )
	{
		return node.kind == GraphNode::Kind::FramePass ? static_cast< FramePassNode const & >( node ).pass : nullptr;
	}
	void passNode( FramePassNode & self, FramePass const & pass )
	{
		self.kind = GraphNode::Kind::FramePass;
		self.id = pass.id;
		self.name = pass.getGroupName();
		self.next.clear();
		self.inputAttaches.clear();
		self.pass = &pass;
	}
	void rootNode( RootNode & self, FrameGraph const & graph )
	{
		self.kind = GraphNode::Kind::Root;
		self.id = 0u;
		self.name = graph.getName();
		self.next.clear();
		self.inputAttaches.clear();
		self.graph = &graph;
	}
	void nodeMove( GraphNode & self, GraphNode && rhs )
	{
		self.kind = rhs.kind;
		self.id = rhs.id;
		self.name = std::move( rhs.name );
		self.next = std::move( rhs.next );
		self.inputAttaches.clear();
	}
	void rootMove( RootNode & self, RootNode && rhs )
	{
		nodeMove( self, std::move( rhs ) );
		self.graph = rhs.graph;
	}
}
