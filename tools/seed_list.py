"""The planted changes: see seeds.py. Nothing here is read by the checks."""

CSS = 'src/css/token.rs'
JS = 'src/js/token.rs'
TOOLS = 'src/js/tools.rs'
UTILS = 'src/js/utils.rs'
READ = 'src/json/read/json_read.rs'


def css(src, exp):
    return f'''
fn main() {{
    let source = {src};
    let got = minifier::css::minify(source).map(|m| m.to_string());
    assert_eq!(got.as_deref(), Ok({exp}));
}}'''


def js(src, exp):
    return f'''
fn main() {{
    let source = {src};
    let got = minifier::js::minify(source).map(|m| m.to_string());
    assert_eq!(got.as_deref(), Ok({exp}));
}}'''


def html(src, exp):
    return f'''
fn main() {{
    assert_eq!(minifier::html::minify({src}), {exp});
}}'''


SEEDS = [
    dict(id='j01-other-spaces', property='J01', also=['J02', 'G03'],
         edits=[('src/json/json_minifier.rs', "    !minifier.is_string && item1.is_whitespace()",
                 "    (!minifier.is_string || *item1 != ' ') && item1.is_whitespace()")],
         needs='a string literal with a white character which is not U+0020, such as a no-break space',
         breaks='white characters other than the plain space are removed from inside strings',
         main='''
fn main() {
    let s = "{ \\"a\\u{a0}b\\" : \\"c\\u{2003} d\\" }";
    assert_eq!(minifier::json::minify(s).to_string(), "{\\"a\\u{a0}b\\":\\"c\\u{2003} d\\"}");
}'''),
    dict(id='j02-room-left', property='J02', also=['J03'],
         edits=[(READ, "            if buf_pos >= buf.len() {\n                break;", "            if buf_pos + 4 > buf.len() {\n                break;")],
         needs='a read() with a buffer of less than 4 bytes while a removed character comes next',
         breaks='the loop stops before anything was stored, so read() returns 0, which means the end of the stream',
         main='''
use std::io::Read;
fn main() {
    let s = "[ 1,  \\"x y\\" ,   2 ]";
    let mut r = minifier::json::minify_from_read(s.as_bytes());
    let mut out = Vec::new();
    let mut buf = [0; 2];
    loop {
        let n = r.read(&mut buf).unwrap();
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
    }
    assert_eq!(String::from_utf8(out).unwrap(), minifier::json::minify(s).to_string());
}'''),
    dict(id='j03-would-block-is-end', property='J03', also=['J02'],
         edits=[('src/json/read/internal_reader.rs', "                return Some(Err(err));",
                 "                if err.kind() == std::io::ErrorKind::WouldBlock {\n                    // Nothing more for now.\n                    return None;\n                }\n                return Some(Err(err));")],
         needs='a source which fails with WouldBlock in the middle of the data and then goes on',
         breaks='the temporary failure is taken for the end of the stream: the reader reports a success with truncated data',
         main='''
use std::io::{Error, ErrorKind, Read};
struct Src(Vec<Result<&'static [u8], ErrorKind>>);
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        match self.0.first_mut() {
            None => Ok(0),
            Some(Err(_)) => match self.0.remove(0) {
                Err(e) => Err(Error::from(e)),
                _ => unreachable!(),
            },
            Some(Ok(data)) => {
                let n = data.len().min(buf.len());
                buf[..n].copy_from_slice(&data[..n]);
                *data = &data[n..];
                if data.is_empty() {
                    self.0.remove(0);
                }
                Ok(n)
            }
        }
    }
}
fn main() {
    let src = Src(vec![Ok(b"[1, 2"), Err(ErrorKind::WouldBlock), Ok(b", 3 ]")]);
    let mut r = minifier::json::minify_from_read(src);
    let mut out = Vec::new();
    let mut buf = [0; 16];
    loop {
        match r.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) => assert_eq!(e.kind(), ErrorKind::WouldBlock),
        }
    }
    assert_eq!(String::from_utf8(out).unwrap(), "[1,2,3]");
}'''),
    dict(id='o01-json-one-write', property='O01',
         edits=[('src/json/string.rs', '            write!(w, "{token}")?;', '            w.write(token.encode_utf8(&mut [0; 4]).as_bytes())?;')],
         needs='a writer which accepts less bytes than the length of a character, or none, or which is interrupted',
         breaks='the bytes of a character that the writer did not accept at once are lost',
         main='''
use std::io::{Result, Write};
struct One(Vec<u8>);
impl Write for One {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.0.extend_from_slice(&buf[..buf.len().min(1)]);
        Ok(buf.len().min(1))
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
fn main() {
    let s = "[\\"\\u{e9}t\\u{e9}\\"]";
    let mut w = One(Vec::new());
    minifier::json::minify(s).write(&mut w).unwrap();
    assert_eq!(String::from_utf8(w.0).unwrap(), s);
}'''),
    dict(id='o01-css-one-write', property='O01',
         edits=[(CSS, '            write!(w, "{token}")?;\n', '            w.write(token.to_string().as_bytes())?;\n')],
         needs='a writer which accepts only a part of the buffer',
         breaks='the end of a token which was not accepted at once is lost',
         main='''
use std::io::{Result, Write};
struct Few(Vec<u8>);
impl Write for Few {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.0.extend_from_slice(&buf[..buf.len().min(3)]);
        Ok(buf.len().min(3))
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
fn main() {
    let mut w = Few(Vec::new());
    minifier::css::minify(".foo { color : red; }").unwrap().write(&mut w).unwrap();
    assert_eq!(String::from_utf8(w.0).unwrap(), ".foo{color:red;}");
}'''),
    dict(id='c02-escaped-backslash', property='C02', also=['C04', 'C01'],
         edits=[(CSS, "            // we skip next character\n            iterator.next();\n            continue;\n        }\n        if let Ok(c) = ReservedChar::try_from(c) {\n            if c == start {",
                 "            // we skip an escaped quote\n            if matches!(iterator.peek(), Some((_, '\"' | '\\''))) {\n                iterator.next();\n            }\n            continue;\n        }\n        if let Ok(c) = ReservedChar::try_from(c) {\n            if c == start {")],
         needs='a string which ends with an escaped backslash',
         breaks='the backslash of `"\\\\\\\\"` is taken for the escape of the closing quote',
         main=css(r'''r#"a{content : "\\" ; b : "c  d"}"#''', r'''r#"a{content:"\\";b:"c  d"}"#''')),
    dict(id='c03-star-letter-slash', property='C03', also=['C01'],
         edits=[(CSS, "        } else {\n            prev = ReservedChar::Space;\n        }", "        }")],
         needs='a comment with a star, letters, and then a slash',
         breaks='the slash of `*a/` ends the comment: the rest of it becomes code',
         main=css('"a{b:c}/* 1*x/y */d{e:f}"', '"a{b:c}d{e:f}"')),
    dict(id='c04-bracket-in-block', property='C04',
         edits=[(CSS, "                    if !is_in_attribute_selector {\n                        return Err(\"Unexpected ']'\");",
                 "                    if !is_in_attribute_selector && is_in_block == 0 {\n                        return Err(\"Unexpected ']'\");")],
         needs='an unmatched ] inside a block',
         breaks='malformed input is accepted',
         main='''
fn main() {
    assert!(minifier::css::minify("a[b]{c:d}").is_ok());
    assert!(minifier::css::minify("a]{c:d}").is_err());
    assert!(minifier::css::minify("a{c:d]}").is_err());
}'''),
    dict(id='c05-at-statement', property='C05',
         edits=[(CSS, "                ReservedChar::SemiColon if is_in_block == 0 => {\n                    is_in_media = false;", "                ReservedChar::SemiColon if is_in_block == 0 && !is_in_media => {")],
         needs='an at-rule without a block (such as @import) before a rule with white space before a colon and none after',
         breaks='the at-rule is never left, so the declarations of the next rule are taken for selectors, and the white space before their colons stays',
         main=css('"@import \\"x\\" ;\\na { b :c ; d :e }"', '"@import \\"x\\";a{b:c;d:e}"')),
    dict(id='c05-calc-depth', property='C05',
         edits=[(CSS, "                is_in_calc = paren != 0;", "                is_in_calc = paren != 1;")],
         needs='white space after a calc() which holds no other parentheses',
         breaks='calc() is not left at its closing parenthesis, and all the white space which follows stays, up to other parentheses',
         main=css('"a { b : calc( 1px + 2px ) ; c : d }\\ne > f { g : h }"', '"a{b:calc(1px + 2px );c:d}e>f{g:h}"')),
    dict(id='g02-semicolons', property='G02',
         edits=[(UTILS, "            if v.is_empty() {\n                continue;\n            }\n            // FIXME: `for` and `while` loops can have their block replaced by a `;`. So as long\n            // as we don't have an AST, we cannot keep this optimization.\n            // if let Some(next) = get_next(&mut it) {",
                 "            if v.is_empty() {\n                if let Some(next) = get_next(&mut it, &mut v) {\n                    if !next.is_white_character() {\n                        v.push(next);\n                    }\n                }\n                continue;\n            }\n            // FIXME: `for` and `while` loops can have their block replaced by a `;`. So as long\n            // as we don't have an AST, we cannot keep this optimization.\n            // if let Some(next) = get_next(&mut it) {")],
         needs='a script which starts with two semicolons or more without white space between them',
         breaks='only one of two adjacent empty statements goes at the start of a script, so that minifying again removes another one',
         main='''
fn main() {
    for s in [";;a=1;", ";;;b()", "; ; ;;c;"] {
        let once = minifier::js::minify(s).unwrap().to_string();
        let twice = minifier::js::minify(&once).unwrap().to_string();
        assert_eq!(once, twice);
    }
}'''),
    dict(id='h03-many-tags', property='H03',
         edits=[('src/html.rs', '        res = res.replace(useless_tag, "");', '        res = res.replacen(useless_tag, "", 256);')],
         needs='a document with more than 256 times the same optional tag',
         breaks='optional tags are kept from the 257th',
         main='''
fn main() {
    let source = "<li> a</li>\\n".repeat(300);
    let got = minifier::html::minify(&source);
    assert!(!got.contains("</li>"), "{got:?}");
}'''),
    dict(id='h03-textarea-word', property='H03',
         edits=[('src/html.rs', '    let lower_source = source.to_lowercase();\n    if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {', '    let lower_source = source.to_lowercase();\n    if lower_source.find("textarea").is_none() && lower_source.find("<pre").is_none() {')],
         needs='a page which has the word textarea out of a tag name (in a text, an attribute...)',
         breaks='white space is not condensed in a page in which the word textarea appears',
         main=html('"<p>about  the\\n textarea</p>\\n<p  id=\\"x\\" >y</p>"', '"<p>about the textarea</p> <p id=\\"x\\">y</p>"')),
    dict(id='s01-empty-statements', property='S01', also=['S07', 'G03'],
         edits=[(UTILS, "            if v.is_empty() {\n                continue;\n            }\n            // FIXME", "            if v.is_empty() || v[v.len() - 1].eq_char(ReservedChar::SemiColon) {\n                continue;\n            }\n            // FIXME")],
         needs='an empty clause in a for statement, or two empty statements',
         breaks='`for(a;;b)` becomes `for(a;b)`, a syntax error',
         main=js('"for(var a=0;;a++){b(a);}"', '"for(var a=0;;a++){b(a);}"')),
    dict(id='s01-number-in', property='S01', also=['S07'],
         edits=[(JS, "                && !tokens[i - 1].is_string()\n", "                && !tokens[i - 1].is_string()\n                && !tokens[i - 1].is_floating_number()\n")],
         needs='a number with a decimal point directly before `in` or `instanceof`',
         breaks='`1.5 in a` becomes `1.5in a`, which is a syntax error',
         main=js('"x = 1.5 in a;"', '"x=1.5 in a;"')),
    dict(id='s02-single-quote-in-substitution', property='S02',
         edits=[(JS, "} else if c == '\"' || c == '\\'' {", "} else if c == '\"' {")],
         needs='a single-quoted string with a brace or a backtick in a substitution of a template literal',
         breaks='what is in the string is taken for code: the template is cut or swallows the code after it',
         main=js('"x = `${ a[ \'`  \' ] }  ` ; y ;"', '"x=`${ a[ \'`  \' ] }  `;y;"')),
    dict(id='s02-object-in-substitution', property='S02', also=['S01', 'G03'],
         edits=[(JS, "                        count -= 1;\n                        if count == 0 {", "                        count -= 1;\n                        if count <= 1 {")],
         needs='a template literal after an object literal in the same substitution',
         breaks='the substitution ends with the object literal, so the inner backtick closes the template',
         main=js('"x = `${f({a:1}, `b  c`)}` ; y ;"', '"x=`${f({a:1}, `b  c`)}`;y;"')),
    dict(id='s03-at-comment', property='S03', also=['S04', 'S01'],
         edits=[(JS, "        if c == '!' {\n            *start_pos += 1;\n            Token::License", "        if c == '!' || c == '@' {\n            *start_pos += 1;\n            Token::License")],
         needs='a comment which starts with /*@',
         breaks='an ordinary comment is kept',
         main=js('"a ; /*@ b */ c ;"', '"a;c;"')),
    dict(id='s03-star-letter-slash', property='S03', also=['S01'],
         edits=[(JS, "        } else {\n            prev = ReservedChar::Space;\n        }\n    }\n    // Unclosed", "        }\n    }\n    // Unclosed")],
         needs='a comment with a star, letters, and then a slash',
         breaks='the slash of `*a/` ends the comment: the rest of it becomes code',
         main=js('"a ; /* 1*x/y */ c ;"', '"a;c;"')),
    dict(id='s04-space-before-in', property='S04',
         edits=[(JS, "                && !tokens[i - 1].is_reserved_char()\n", "                && !matches!(tokens[i - 1], Token::Char(ReservedChar::CloseParenthese))\n")],
         needs='`in` or `instanceof` after a closing bracket or brace',
         breaks='a useless space is kept',
         main=js('"x = a[0] in b;"', '"x=a[0]in b;"')),
    dict(id='s05-two-taken-names', property='S05', also=['S06'],
         edits=[(TOOLS, "                        next_name = var_gen.to_string();\n                        while all_variables", "                        next_name = var_gen.to_string();\n                        if all_variables")],
         needs='two generated names in a row which the source already uses, after a first string was aggregated',
         breaks='the created variable has the name of a variable of the source',
         main='''
use minifier::js::{aggregate_strings, clean_tokens, simple_minify};
fn main() {
    let mut out = Vec::new();
    let src = "var r_ba=1,r_ca=2;f('a nice string','a nice string','another nice string','another nice string');";
    for s in [src] {
        let t = simple_minify(s).unwrap().apply(clean_tokens).apply(aggregate_strings).to_string();
        out.push(t);
    }
    assert!(out[0].contains("another nice string"));
    for name in ["r_ba", "r_ca"] {
        assert_eq!(out[0].matches(&format!("{name}=")).count(), 1, "{}", out[0]);
    }
}'''),
    dict(id='s06-sorted-as-text', property='S06',
         edits=[(TOOLS, "        validated.sort_unstable_by(|(p1, _), (p2, _)| p2.cmp(p1));", "        validated.sort_unstable_by(|(p1, _), (p2, _)| p2.to_string().cmp(&p1.to_string()));")],
         needs='more than ten aggregated strings',
         breaks='the elements are not where the indexes say: they are declared in the order of the text of the indexes',
         main='''
use minifier::js::{aggregate_strings_into_array, clean_tokens, simple_minify};
fn main() {
    let mut src = String::new();
    let mut expected = String::from("var R=[");
    let mut uses = String::new();
    for i in 0..12 {
        src.push_str(&format!("f('long string number {i}','long string number {i}');"));
        expected.push_str(&format!("{}\\"long string number {i}\\"", if i > 0 { "," } else { "" }));
        uses.push_str(&format!("f(R[{i}],R[{i}]);"));
    }
    let t = simple_minify(&src).unwrap().apply(clean_tokens).apply(|t| aggregate_strings_into_array(t, "R")).to_string();
    assert_eq!(t, format!("{expected}];{uses}"));
}'''),
    dict(id='s07-semicolon-before-parenthesis', property='S07',
         edits=[(UTILS, "                    || *next_token != Some(&Token::Char(ReservedChar::CloseCurlyBrace)))", "                    || !matches!(\n                        next_token,\n                        Some(Token::Char(\n                            ReservedChar::CloseCurlyBrace | ReservedChar::CloseParenthese\n                        ))\n                    ))")],
         needs='a semicolon before a closing parenthesis: for(a;b;)',
         breaks='clean_token tells that a semicolon which is needed is useless',
         main='''
use minifier::js::{clean_token, simple_minify};
fn main() {
    let tokens = simple_minify("for(a;b;)c();").unwrap();
    let s: Vec<_> = tokens.iter().enumerate().filter(|(i, t)| clean_token(t, &tokens.get(i + 1))).map(|(_, t)| t.to_string()).collect();
    assert_eq!(s.concat(), "for(a;b;)c();");
}'''),
    dict(id='s07-callback-not-asked', property='S07',
         edits=[(UTILS, "        if (t.is_comment() || t.is_white_character()) && f(&t) {", "        if t.is_comment() || t.is_white_character() && f(&t) {")],
         needs='clean_tokens_except with a callback which keeps comments',
         breaks='comments are removed although the callback keeps them',
         main='''
use minifier::js::{clean_tokens_except, simple_minify};
fn main() {
    let t = simple_minify("a ; /* b */ c ;").unwrap().apply(|t| clean_tokens_except(t, |t| !t.is_comment()));
    assert!(t.iter().any(|t| t.is_comment()));
}'''),
    dict(id='g01-taken-name', property='G01', also=['S05'],
         edits=[(TOOLS, "                            var_gen.next();\n                            next_name = var_gen.to_string();\n                        }\n                    }", "                            next_name = var_gen.to_string();\n                        }\n                    }")],
         needs='a source which uses the name that would be generated for the second aggregated string',
         breaks='the name never changes: infinite loop',
         main='''
use minifier::js::{aggregate_strings, clean_tokens, simple_minify};
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        eprintln!("DEMO: still running");
        std::process::exit(1);
    });
    let src = "var r_ba=1;f('a nice string','a nice string');";
    let t = simple_minify(src).unwrap().apply(clean_tokens).apply(aggregate_strings).to_string();
    assert!(t.starts_with("var r_aa='a nice string';"), "{t}");
}'''),
    dict(id='g03-narrow-parentheses', property='G03', also=['G01'],
         edits=[(CSS, "    let mut paren = 0;\n", "    let mut paren: i8 = 0;\n")],
         needs='more than 127 nested parentheses in calc()',
         breaks='the counter overflows: panic in debug, the rest of calc() is minified as something else in release',
         main='''
fn main() {
    let s = format!("a{{b:calc({}1{})}}", "(".repeat(300), ")".repeat(300));
    assert_eq!(minifier::css::minify(&s).unwrap().to_string(), s);
}'''),
    dict(id='g03-narrow-braces', property='G03', also=['G01', 'S02'],
         edits=[(JS, "            let mut count = 0;\n", "            let mut count: i8 = 0;\n")],
         needs='more than 127 nested braces in a substitution of a template literal',
         breaks='the counter overflows: panic in debug',
         main='''
fn main() {
    let s = format!("x=`${{{}1{}}}`;", "{a:".repeat(200), "}".repeat(200));
    assert_eq!(minifier::js::minify(&s).unwrap().to_string(), s);
}'''),
    dict(id='h01-self-closing', property='H01',
         edits=[('src/html.rs', '''    let spaces_before_close = Regex::new(r##""\\s+>"##).unwrap();''', '''    let spaces_before_close = Regex::new(r##""(\\s+|\\s*/)>"##).unwrap();''')],
         needs='a self-closing element after a quoted attribute',
         breaks='`<circle r="1"/>` becomes an open element, which contains what follows',
         main=html('r#"<svg><circle r="1"/><g></g></svg>"#', 'r#"<svg><circle r="1"/><g></g></svg>"#')),
    dict(id='h02-upper-case-pre', property='H02',
         edits=[('src/html.rs', 'lower_source.find("<pre").is_none() {', 'source.find("<pre").is_none() {')],
         needs='a <PRE> element in upper case, with no <textarea>',
         breaks='the white space of the element is collapsed',
         main=html('"<PRE>a\\n  b</PRE>"', '"<PRE>a\\n  b</PRE>"')),
    dict(id='l01-stale-tail', property='L01', also=['L02'],
         edits=[('src/cli.rs', "                .truncate(true)\n", "")],
         needs='an output which already exists and is longer than the new one',
         breaks='the end of the previous output stays after the new one',
         cli='''
printf 'a { b : c }' >x.css
printf 'previous output which is much longer than the new one' >x.min.css
"$bin" x.css
[ "$(cat x.min.css)" = 'a{b:c}' ] || { echo DEMO; cat x.min.css; exit 1; }'''),
    dict(id='l01-type-by-extension', property='L01',
         edits=[('src/cli.rs', "    let file_ext = if let Some(v) = ext {\n        v\n", "    let detected = FileType::from(file_path);\n    let file_ext = if let (Some(v), FileType::Unknown | FileType::Json) = (ext, detected) {\n        v\n")],
         needs='-t with a file which has another known extension',
         breaks='the extension wins over the type which was asked for',
         cli='''
printf '[ 1 ]' >x.js
"$bin" -t json x.js
[ "$(cat x.min.json)" = '[1]' ] || { echo DEMO; ls; exit 1; }'''),
    dict(id='l02-stops-at-unknown', property='L02', also=['L01'],
         edits=[('src/cli.rs', '''        eprintln!("{file_path:?}: unknow file extension...");\n''', '''        panic!("{file_path:?}: unknow file extension...");\n''')],
         needs='a file of unknown type before other inputs',
         breaks='the inputs after it are not processed',
         cli='''
printf 'hello' >x.txt
printf 'a { b : c }' >x.css
"$bin" x.txt x.css
[ "$(cat x.min.css)" = 'a{b:c}' ] || { echo DEMO; ls; exit 1; }'''),
]
