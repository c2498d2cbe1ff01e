H = 'include/RenderGraph/Signal.hpp'
E = [
('sg-for', [(H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction();\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tfor ( auto it = m_slots.begin(); it != m_slots.end(); )\n\t\t\t{\n\t\t\t\tauto [index, function] = *it;\n\t\t\t\tfunction();\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n'), (H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tfor ( auto it = m_slots.begin(); it != m_slots.end(); )\n\t\t\t{\n\t\t\t\tauto [index, function] = *it;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n')]),
('sg-next0', [(H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction();\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tuint32_t last = 0u;\n\t\t\tauto it = m_slots.upper_bound( last );\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\tlast = it->first;\n\t\t\t\tFunction f = it->second;\n\t\t\t\tf();\n\t\t\t\tit = m_slots.upper_bound( last );\n\t\t\t}\n'), (H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tuint32_t last = 0u;\n\t\t\tauto it = m_slots.upper_bound( last );\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\tlast = it->first;\n\t\t\t\tFunction f = it->second;\n\t\t\t\tf( params... );\n\t\t\t\tit = m_slots.upper_bound( last );\n\t\t\t}\n')]),
('sg-helper', [(H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction();\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction();\n\t\t\t\tit = following( index );\n\t\t\t}\n'), (H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = following( index );\n\t\t\t}\n'), (H, '\tprivate:\n\t\tstd::map< uint32_t, Function > m_slots;', '\tprivate:\n\t\ttypename std::map< uint32_t, Function >::const_iterator following( uint32_t index )const\n\t\t{\n\t\t\treturn m_slots.upper_bound( index );\n\t\t}\n\n\t\tstd::map< uint32_t, Function > m_slots;')]),
('sg-snap', [(H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction();\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tauto slots = m_slots;\n\n\t\t\tfor ( auto & slot : slots )\n\t\t\t{\n\t\t\t\tif ( m_slots.find( slot.first ) != m_slots.end() )\n\t\t\t\t{\n\t\t\t\t\tslot.second();\n\t\t\t\t}\n\t\t\t}\n'), (H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tauto slots = m_slots;\n\n\t\t\tfor ( auto & slot : slots )\n\t\t\t{\n\t\t\t\tif ( m_slots.find( slot.first ) != m_slots.end() )\n\t\t\t\t{\n\t\t\t\t\tslot.second( params... );\n\t\t\t\t}\n\t\t\t}\n')]),
('sg-dtor-while-empty', [(H, '\t\t\tauto it = m_connections.begin();\n\n\t\t\twhile ( it != m_connections.end() )\n\t\t\t{\n\t\t\t\t( *it )->disconnect();\n\t\t\t\tit = m_connections.begin();\n\t\t\t}\n', '\t\t\twhile ( !m_connections.empty() )\n\t\t\t{\n\t\t\t\tauto connection = *m_connections.begin();\n\t\t\t\tconnection->disconnect();\n\t\t\t}\n')]),
('sg-dtor-post', [(H, '\t\t\tauto it = m_connections.begin();\n\n\t\t\twhile ( it != m_connections.end() )\n\t\t\t{\n\t\t\t\t( *it )->disconnect();\n\t\t\t\tit = m_connections.begin();\n\t\t\t}\n', '\t\t\tfor ( auto it = m_connections.begin(); it != m_connections.end(); )\n\t\t\t{\n\t\t\t\tauto cur = it++;\n\t\t\t\t( *cur )->disconnect();\n\t\t\t}\n')]),
('sg-disc-early', [(H, '\t\t\tif ( m_signal && m_connection )\n\t\t\t{\n\t\t\t\tm_signal->disconnect( m_connection );\n\t\t\t\tm_signal->remConnection( *this );\n\t\t\t\tm_signal = nullptr;\n\t\t\t\tm_connection = 0u;\n\t\t\t}\n', '\t\t\tif ( !isValid() )\n\t\t\t{\n\t\t\t\treturn;\n\t\t\t}\n\n\t\t\tm_signal->disconnect( m_connection );\n\t\t\tm_signal->remConnection( *this );\n\t\t\tm_connection = 0u;\n\t\t\tm_signal = nullptr;\n')]),
('sg-erase', [(H, '\t\t\tauto it = m_slots.find( index );\n\n\t\t\tif ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\tm_slots.erase( it );\n\t\t\t}\n', '\t\t\tm_slots.erase( index );\n')]),
('sg-assign', [(H, '\t\t\tSignalConnection tmp{ std::move( rhs ) };\n\t\t\tswap( *this, tmp );\n', '\t\t\tdisconnect();\n\t\t\tswap( *this, rhs );\n')]),
('sg-connect', [(H, '\t\t\tuint32_t index = m_slots.empty() ? 1u : m_slots.rbegin()->first + 1u;\n\t\t\tm_slots.emplace( index, function );\n\t\t\treturn my_connection{ index, *this };', '\t\t\tuint32_t index = 1u;\n\n\t\t\tif ( !m_slots.empty() )\n\t\t\t{\n\t\t\t\tindex = std::prev( m_slots.end() )->first + 1u;\n\t\t\t}\n\n\t\t\tm_slots.try_emplace( index, std::move( function ) );\n\t\t\treturn my_connection{ index, *this };')]),
('sg-lock', [(H, '\t\t\tlock_type lock( m_mutex );\n\t\t\tm_connections.insert( &connection );', '\t\t\tstd::lock_guard< std::recursive_mutex > lock{ m_mutex };\n\t\t\tm_connections.emplace( &connection );')]),
('sg-move', [(H, '\t\t\t: SignalConnection{ 0u, nullptr }\n\t\t{\n\t\t\tswap( *this, rhs );\n\t\t}', '\t\t\t: SignalConnection{ rhs.m_connection, rhs.m_signal }\n\t\t{\n\t\t\tif ( m_signal )\n\t\t\t{\n\t\t\t\tm_signal->remConnection( rhs );\n\t\t\t\tm_signal->addConnection( *this );\n\t\t\t\trhs.m_signal = nullptr;\n\t\t\t\trhs.m_connection = 0u;\n\t\t\t}\n\t\t}')]),
('sg-assign2', [(H, '\t\t\tSignalConnection tmp{ std::move( rhs ) };\n\t\t\tswap( *this, tmp );\n', '\t\t\tif ( this != &rhs )\n\t\t\t{\n\t\t\t\tdisconnect();\n\n\t\t\t\tif ( rhs.m_signal )\n\t\t\t\t{\n\t\t\t\t\tm_connection = rhs.m_connection;\n\t\t\t\t\tm_signal = rhs.m_signal;\n\t\t\t\t\tm_signal->remConnection( rhs );\n\t\t\t\t\tm_signal->addConnection( *this );\n\t\t\t\t\trhs.m_signal = nullptr;\n\t\t\t\t\trhs.m_connection = 0u;\n\t\t\t\t}\n\t\t\t}\n')]),
('sg-swap-helper', [(H, '\t\t\tif ( lhs.m_signal )\n\t\t\t{\n\t\t\t\tlhs.m_signal->addConnection( lhs );\n\t\t\t}\n\n\t\t\tif ( rhs.m_signal )\n\t\t\t{\n\t\t\t\trhs.m_signal->addConnection( rhs );\n\t\t\t}', '\t\t\tlhs.attach();\n\t\t\trhs.attach();'), (H, '\t\tstatic void swap(', '\t\tvoid attach()\n\t\t{\n\t\t\tif ( isValid() )\n\t\t\t{\n\t\t\t\tm_signal->addConnection( *this );\n\t\t\t}\n\t\t}\n\n\t\tstatic void swap(')]),
('sg-valid', [(H, 'return m_signal && m_connection;', 'return m_signal != nullptr;')]),
('sg-emit', [(H, '\t\tvoid operator()()const\n\t\t{\n\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction();\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\tvoid operator()()const\n\t\t{\n\t\t\temitAll();\n'), (H, 'Params && ... params )const\n\t\t{\n\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', 'Params && ... params )const\n\t\t{\n\t\t\temitAll( params... );\n'), (H, '\tprivate:\n\t\t/**\n\t\t*\\brief\n\t\t*\tDisconnects a function.', '\tprivate:\n\t\ttemplate< typename ... Params >\n\t\tvoid emitAll( Params & ... params )const\n\t\t{\n\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n\t\t}\n\t\t/**\n\t\t*\\brief\n\t\t*\tDisconnects a function.')]),
('sg-call', [(H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction();\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tcallSlot( it );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n'), (H, '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tauto function = it->second;\n\t\t\t\tfunction( params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n', '\t\t\tauto it = m_slots.begin();\n\n\t\t\twhile ( it != m_slots.end() )\n\t\t\t{\n\t\t\t\t// The slots can be changed by the slot itself.\n\t\t\t\tauto index = it->first;\n\t\t\t\tcallSlot( it, params... );\n\t\t\t\tit = m_slots.upper_bound( index );\n\t\t\t}\n'), (H, '\tprivate:\n\t\t/**\n\t\t*\\brief\n\t\t*\tDisconnects a function.', '\tprivate:\n\t\ttemplate< typename IteratorT, typename ... Params >\n\t\tvoid callSlot( IteratorT const & it, Params & ... params )const\n\t\t{\n\t\t\tFunction function = it->second;\n\t\t\tfunction( params... );\n\t\t}\n\t\t/**\n\t\t*\\brief\n\t\t*\tDisconnects a function.')]),
]
