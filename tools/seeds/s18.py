id='s18_second_listener'; property='P18'; bin='p18'
edits=[('src/parser.rs', '                for listener in &mut self.parse_listeners {\n                    listener.visit_error_node(&*node)', '                for listener in self.parse_listeners.iter_mut().take(1) {\n                    listener.visit_error_node(&*node)')]
needs='two parse listeners and a syntax error'
breaks='only the first listener hears about error nodes'
