id='s21_owned_text'; property='P21'; bin='p21'
edits=[('src/token.rs', '            text: self.get_text().to_display(),\n            read_only: true,', "            text: self.get_text().to_display().trim_end_matches('\\0').to_owned(),\n            read_only: true,")]
needs='a token whose text ends in NUL characters'
breaks='the owned copy has a different text'
