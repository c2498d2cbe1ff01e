// Reference models: groups of passes, and the graph as their owner.
#include "spec.hpp"
#include "FramePassGroup.cpp"

namespace spec
{
	inline FramePassGroup const * outermost( FramePassGroup const * group )
	{
		while ( group && group->parent )
			group = group->parent;
		return group;
	}
	// other ways of putting the same
	inline FramePassGroup const * outermostOf( FramePassGroup const * group )
	{
		while ( group->parent )
			group = group->parent;
		return group;
	}
	inline FramePassGroup const * outermostAgain( FramePassGroup const * group )
	{
		if ( !group || !group->parent )
			return group;
		return group::getOutermost( group->parent );
	}
	uint32_t countPasses( FramePassGroup const * group )
	{
		auto result = uint32_t( group->passes.size() );
		for ( auto & child : group->groups )
			result += crg::group::countPasses( child.get() );
		return result;
	}
	uint32_t countGroups( FramePassGroup const * group )
	{
		auto result = uint32_t( group->groups.size() );
		for ( auto & child : group->groups )
			result += crg::group::countGroups( child.get() );
		return result;
	}
	bool hasPass( FramePassGroup const & self, std::string const & name )
	{
		return std::any_of( self.passes.begin(), self.passes.end(), [&name]( FramePassPtr const & pass ){ return pass->m_name == name; } );
	}
	FramePass & createPass( FramePassGroup & self, std::string const & name, RunnablePassCreator creator )
	{
		if ( self.hasPass( name ) )
			throw std::runtime_error{ "Duplicate FramePass name detected." };
		self.passes.emplace_back( new FramePass{ self, self.m_graph, crg::group::countPasses( crg::group::getOutermost( &self ) ) + 1u, name, std::move( creator ) } );
		return *self.passes.back();
	}
	FramePassGroup & createGroup( FramePassGroup & self, std::string const & name )
	{
		auto it = std::find_if( self.groups.begin(), self.groups.end(), [&name]( FramePassGroupPtr const & group ){ return group->m_name == name; } );
		if ( it != self.groups.end() )
			return **it;
		self.groups.emplace_back( new FramePassGroup{ self, crg::group::countGroups( crg::group::getOutermost( &self ) ) + 1u, name } );
		return *self.groups.back();
	}
	void listPasses( FramePassGroup const & self, FramePassArray & result )
	{
		for ( auto & pass : self.passes )
			result.push_back( pass.get() );
		for ( auto & group : self.groups )
			group->listPasses( result );
	}
	std::string groupFullName( FramePassGroup const & self )
	{
		if ( &self == &self.m_graph.getDefaultGroup() )
			return self.m_graph.getName();
		return self.parent->getFullName() + "/" + self.m_name;
	}
	void groupInit( FramePassGroup & self, FramePassGroup & parent, uint32_t id, std::string const & name )
	{
		self.id = id;
		self.parent = &parent;
		self.m_name = name;
		self.passes.clear();
		self.groups.clear();
		self.m_inputs.clear();
		self.m_outputs.clear();
	}
	void rootInit( FramePassGroup & self, FrameGraph & graph, uint32_t id, std::string const & name )
	{
		self.id = id;
		self.parent = nullptr;
		self.m_name = name;
		self.passes.clear();
		self.groups.clear();
		self.m_inputs.clear();
		self.m_outputs.clear();
	}
	void groupInput( FramePassGroup & self, ImageViewId view )
	{
		self.m_inputs.insert( view.id );
	}
	void groupOutput( FramePassGroup & self, ImageViewId view )
	{
		self.m_outputs.insert( view.id );
	}
	LayoutState groupFinal( FramePassGroup const & self, ImageViewId view, uint32_t index ) { return self.m_graph.getFinalLayoutState( view, index ); }
	ImageId groupImage( FramePassGroup const & self, ImageData const & data ) { return self.m_graph.createImage( data ); }
	ImageViewId groupView( FramePassGroup const & self, ImageViewData const & data ) { return self.m_graph.createView( data ); }
	void groupAddInput( FramePassGroup & self, ImageId image, VkImageViewType type, VkImageSubresourceRange const & range, LayoutState const & state ) { self.m_graph.addInput( image, type, range, state ); }
	void groupAddOutput( FramePassGroup & self, ImageId image, VkImageViewType type, VkImageSubresourceRange const & range, LayoutState const & state ) { self.m_graph.addOutput( image, type, range, state ); }
	void groupAddInputView( FramePassGroup & self, ImageViewId view, LayoutState const & state ) { self.m_graph.addInput( view.data->image, view.data->info.viewType, view.data->info.subresourceRange, state ); }
	void groupAddOutputView( FramePassGroup & self, ImageViewId view, LayoutState const & state ) { self.m_graph.addOutput( view.data->image, view.data->info.viewType, view.data->info.subresourceRange, state ); }

	// the graph
	FramePass & graphPass( FrameGraph & self, std::string const & name, RunnablePassCreator creator ) { return self.m_defaultGroup->createPass( name, creator ); }
	FramePassGroup & graphGroup( FrameGraph & self, std::string const & name ) { return self.m_defaultGroup->createPassGroup( name ); }
	ImageId graphImage( FrameGraph & self, ImageData const & data )
	{
		auto result = self.m_handler.createImageId( data );
		self.m_images.insert( result );
		return result;
	}
	ImageViewId graphView( FrameGraph & self, ImageViewData const & data )
	{
		auto result = self.m_handler.createViewId( data );
		self.m_imageViews.insert( result );
		return result;
	}
}
