id='s19c_first_mode'; property='P19'; bin='p19'
edits=[('src/error_strategy.rs', '        if self.in_error_recovery_mode(recognizer) {\n            return;\n        }\n\n        self.begin_error_condition(recognizer);\n        let msg', '        if self.in_error_recovery_mode(recognizer) && self.last_error_index == recognizer.get_input_stream_mut().index() {\n            return;\n        }\n\n        self.begin_error_condition(recognizer);\n        let msg')]
needs='a token that cannot be matched while recovering from an earlier error, at another position than that error'
breaks='a second error is reported before a token was matched: one mistake gives several reports'
