// Reference models: the context of the device, debug names, results of device calls, logging.
#include "spec.hpp"
#include <RenderGraph/Exception.hpp>

namespace spec
{
	void mkContext( GraphContext & self, VkDevice device, VkPipelineCache cache, VkAllocationCallbacks const * allocator
		, VkPhysicalDeviceMemoryProperties memory, VkPhysicalDeviceProperties properties, bool separate, PFN_vkGetDeviceProcAddr loader )
	{
		self.device = device;
		self.cache = cache;
		self.allocator = allocator;
		self.memoryProperties = memory;
		self.properties = properties;
		self.separateDepthStencilLayouts = separate;
		self.delQueue.m_toDelete = {};
	}
	PFN_vkVoidFunction loaded( VkDevice device, PFN_vkGetDeviceProcAddr loader, char const * name )
	{
		if ( loader && device )
			return loader( device, name );
		return nullptr;
	}
	bool suits( GraphContext const & self, uint32_t bits, VkMemoryPropertyFlags wanted, uint32_t index )
	{
		return ( bits & 1u ) == 1u && ( self.memoryProperties.memoryTypes[index].propertyFlags & wanted ) == wanted;
	}
	uint32_t memoryType( GraphContext const & self, uint32_t bits, VkMemoryPropertyFlags wanted )
	{
		for ( uint32_t i = 0u; i < self.memoryProperties.memoryTypeCount; ++i )
		{
			if ( suits( self, bits, wanted, i ) )
				return i;
			bits >>= 1;
		}
		Logger::logError( "none" );
		CRG_Exception( "none" );
	}
	void checkResult( VkResult result, char const * step )
	{
		if ( result != VK_SUCCESS )
		{
			Logger::logError( step );
			CRG_Exception( step );
		}
	}
	void checkResultString( VkResult result, std::string const & step )
	{
		checkResult( result, step.c_str() );
	}
	// debug names
	void nameObject( GraphContext & self, uint64_t object, uint32_t type, std::string const & name )
	{
		if ( self.vkSetDebugUtilsObjectNameEXT )
		{
			VkDebugUtilsObjectNameInfoEXT info{};
			info.sType = VK_STRUCTURE_TYPE_DEBUG_UTILS_OBJECT_NAME_INFO_EXT;
			info.objectType = VkObjectType( type );
			info.objectHandle = object;
			info.pObjectName = name.c_str();
			self.vkSetDebugUtilsObjectNameEXT( self.device, &info );
		}
		if ( self.vkDebugMarkerSetObjectNameEXT )
		{
			VkDebugMarkerObjectNameInfoEXT info{};
			info.sType = VK_STRUCTURE_TYPE_DEBUG_MARKER_OBJECT_NAME_INFO_EXT;
			info.objectType = VkDebugReportObjectTypeEXT( type );
			info.object = object;
			info.pObjectName = name.c_str();
			self.vkDebugMarkerSetObjectNameEXT( self.device, &info );
		}
	}
	void trackObject( GraphContext & self, uint64_t object, uint32_t type, std::string const & name, std::string const & typeName )
	{
		nameObject( self, object, type, name );
		std::string stack;
		if ( self.m_callstackCallback )
			stack = self.m_callstackCallback();
		self.m_allocated.insert_or_assign( object, GraphContext::ObjectAllocation{ typeName, name, stack } );
	}
	void untrackObject( GraphContext & self, uint64_t object )
	{
		if ( object )
			self.m_allocated.erase( object );
	}
	void reportLeaks( GraphContext & self )
	{
		for ( auto const & alloc : self.m_allocated )
			fprintf( stderr, "Leaked [%.20s](%.90s), allocation stack:\n%.900s", alloc.second.type.c_str(), alloc.second.name.c_str(), alloc.second.callstack.c_str() );
	}
	void beginBlock( GraphContext const & self, VkCommandBuffer cb, DebugBlockInfo const & block )
	{
		if ( self.vkCmdBeginDebugUtilsLabelEXT )
		{
			VkDebugUtilsLabelEXT label{};
			label.sType = VK_STRUCTURE_TYPE_DEBUG_UTILS_LABEL_EXT;
			label.pLabelName = block.markerName.c_str();
			for ( int i = 0; i < 4; ++i )
				label.color[i] = block.colour[i];
			self.vkCmdBeginDebugUtilsLabelEXT( cb, &label );
		}
		if ( self.vkCmdDebugMarkerBeginEXT )
		{
			VkDebugMarkerMarkerInfoEXT label{};
			label.sType = VK_STRUCTURE_TYPE_DEBUG_MARKER_MARKER_INFO_EXT;
			label.pMarkerName = block.markerName.c_str();
			for ( int i = 0; i < 4; ++i )
				label.color[i] = block.colour[i];
			self.vkCmdDebugMarkerBeginEXT( cb, &label );
		}
	}
	void endBlock( GraphContext const & self, VkCommandBuffer cb )
	{
		if ( self.vkCmdEndDebugUtilsLabelEXT )
			self.vkCmdEndDebugUtilsLabelEXT( cb );
		if ( self.vkCmdDebugMarkerEndEXT )
			self.vkCmdDebugMarkerEndEXT( cb );
	}
	// what the registrations say about the object
	void useRegister( GraphContext & context, std::string const & name, VkFence fence, VkImage image, VkPipeline pipeline )
	{
		crgRegisterObject( context, name, fence );
		crgRegisterObjectName( context, name, image );
		crgUnregisterObject( context, pipeline );
	}
	void defRegister( GraphContext & context, std::string const & name, VkFence fence, VkImage image, VkPipeline pipeline )
	{
		context.doRegisterObject( uint64_t( fence ), uint32_t( VK_OBJECT_TYPE_FENCE ), name, DebugTypeTraits< VkFence >::Name );
		context.doRegisterObjectName( uint64_t( image ), uint32_t( VK_OBJECT_TYPE_IMAGE ), name );
		context.doUnregisterObject( uint64_t( pipeline ) );
	}
	// logging
	void sayTrace( std::string const & text, bool line ) { Logger::doGetInstance().m_trace( text, line ); }
	void sayDebug( std::string const & text, bool line ) { Logger::doGetInstance().m_debug( text, line ); }
	void sayInfo( std::string const & text, bool line ) { Logger::doGetInstance().m_info( text, line ); }
	void sayWarning( std::string const & text, bool line ) { Logger::doGetInstance().m_warning( text, line ); }
	void sayError( std::string const & text, bool line ) { Logger::doGetInstance().m_error( text, line ); }
	void keepTrace( Logger::LogCallback f ) { Logger::doGetInstance().m_trace = f; }
	void keepDebug( Logger::LogCallback f ) { Logger::doGetInstance().m_debug = f; }
	void keepInfo( Logger::LogCallback f ) { Logger::doGetInstance().m_info = f; }
	void keepWarning( Logger::LogCallback f ) { Logger::doGetInstance().m_warning = f; }
	void keepError( Logger::LogCallback f ) { Logger::doGetInstance().m_error = f; }
	inline void say( std::string const & text, bool line, std::ostream & stream )
	{
		stream << text;
		if ( line )
			stream << std::endl;
	}
	void mkLogger( Logger & self )
	{
		self.m_trace = []( std::string const & text, bool line ){ say( text, line, std::clog ); };
		self.m_debug = []( std::string const & text, bool line ){ say( text, line, std::clog ); };
		self.m_info = []( std::string const & text, bool line ){ say( text, line, std::cout ); };
		self.m_warning = []( std::string const & text, bool line ){ say( text, line, std::cout ); };
		self.m_error = []( std::string const & text, bool line ){ say( text, line, std::cerr ); };
	}
}
