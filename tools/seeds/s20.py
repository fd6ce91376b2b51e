id='s20_upper_case_names'; property='P20'; bin='p20'
edits=[('src/vocabulary.rs', '                Some(tn) if !tn.is_empty() && tn.chars().next().unwrap().is_uppercase() => {', '                Some(tn) if !tn.is_empty() && tn.as_bytes()[0].is_ascii_uppercase() => {')]
needs='a token name that starts with an upper case letter outside ASCII'
breaks='the token has no symbolic name'
