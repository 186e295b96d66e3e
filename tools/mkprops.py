"""Writes properties.jsonl (kept as a script so the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None,
                               **({'state': state} if state else {}))))

C = 'creole/'
p('C01', 'creole2html returns well-formed, injection-free HTML',
  'For every creole source and every option value, the string returned by creole2html is text and properly nested, closed elements with double-quoted attribute values, and source characters `<`, `>` and `&` (and `"` inside an attribute value) appear in it only as character references (`&lt;`, `&gt;`, `&amp;`, `&quot;`). The only exception is text returned by a macro function the caller supplied, which is inserted as is.',
  ['inputs', 'configurations'], 'every source string, every value of blog_line_breaks/strict/verbose, with and without table of contents, every kind of document node and every error notice',
  'The tests compare a few hundred fixed sources with fixed HTML; whether source characters can reach the output raw depends on arbitrary content in each of some twenty emit paths (titles, link targets, toc entries, error notices).',
  [C+'emitter/creol2html_emitter.py', C+'parser/creol2html_parser.py'],
  [('html_escape / attr_escape in every emit method', C+'emitter/creol2html_emitter.py HtmlEmitter'),
   ('table of contents rendering', C+'emitter/creol2html_emitter.py TableOfContent'),
   ('error notices', C+'emitter/creol2html_emitter.py HtmlEmitter.error, macro_emit')],
  ['creole2html() return value'])
p('C02', 'creole2html never fails, and contains every macro failure',
  'For every source string whose nesting stays within the interpreter recursion limit, every option value and verbose <= 2, creole2html returns a str and raises nothing, whatever Exception (with a working str() and repr()) the supplied macros raise and whatever they return. A macro that is unknown, has malformed arguments, raises an Exception or returns something that is not a str is replaced by an `[Error: ...]` notice (by nothing when verbose is 0) while the rest of the document is still converted.',
  ['inputs', 'configurations', 'fault_sequences'], 'every source string (nesting below the interpreter recursion limit), every macro table, every exception or return value of a macro',
  'Tests run fixed sources with four well-behaved and two failing macros; freedom from exceptions is a statement about every source, every regex alternative and every macro behaviour.',
  [C+'parser/creol2html_parser.py', C+'parser/creol2html_rules.py', C+'emitter/creol2html_emitter.py', C+'shared/utils.py'],
  [('one _*_repl method per regex group', C+'parser/creol2html_parser.py CreoleParser._replace'),
   ('one *_emit method per node kind', C+'emitter/creol2html_emitter.py HtmlEmitter.emit_node'),
   ('try/except around macro lookup, argument parsing and call', C+'emitter/creol2html_emitter.py HtmlEmitter.macro_emit')],
  ['creole2html() return value or exception'])
p('C03', 'creole2html keeps all text of the source, in order',
  'For every creole source without macro tags, all characters of the source other than whitespace and the creole markup characters `* / # _ ^ , - ~ \\ { } [ ] | = < > : ! .` appear in the text or attribute values of the HTML returned by creole2html, in the order in which they appear in the source, whatever markup they are nested in. The one exception is the WIDTHxHEIGHT size of an image, which becomes its width and height.',
  ['inputs'], 'every source string without `<<`, every nesting of block and inline markup, both line-break modes (the digits of an image size may lose leading zeros)',
  'Tests compare fixed sources; dropping or reordering text shows only for particular nestings (text after a nested list, a break before a table, an escape after a link) that samples miss.',
  [C+'parser/creol2html_parser.py', C+'parser/creol2html_rules.py', C+'emitter/creol2html_emitter.py', C+'shared/document_tree.py'],
  [('nodes are appended on the rightmost path of the tree; self.text is the last leaf or None', C+'parser/creol2html_parser.py CreoleParser'),
   ('each emit method emits its content and all its children', C+'emitter/creol2html_emitter.py HtmlEmitter')],
  ['creole2html() return value', 'CreoleParser(...).parse() tree'],
  [dict(name='CreoleParser.cur/text', meaning='insertion point in the document tree', where=C+'parser/creol2html_parser.py')])
p('C04', 'Preformatted (nowiki) text is emitted verbatim',
  'The text between `{{{` and `}}}` (block or inline) appears in the HTML of creole2html as the content of one pre or code element that, after resolving character references, equals the source text exactly (a block only loses whitespace-only lines directly after the opening braces and the one `~` that escapes a `}}}` on a line of its own). No markup or escape inside it is interpreted.',
  ['inputs'], 'every preformatted text, block and inline, in every context where the parser recognises it as preformatted',
  'Tests contain a handful of preformatted samples; verbatim means for every content.',
  [C+'parser/creol2html_parser.py', C+'emitter/creol2html_emitter.py'],
  [('_pre_block_repl / _pre_inline_repl store the group text', C+'parser/creol2html_parser.py'),
   ('pre_block_emit / pre_inline_emit', C+'emitter/creol2html_emitter.py')],
  ['creole2html() return value'])
p('C05', 'Line-ending convention does not matter to creole2html',
  'For every source s without carriage returns and every option value, creole2html of s, of s with every newline written as CR LF, and of s with every newline written as CR are equal.',
  ['inputs'], 'every source string, all three line-ending conventions, mixed conventions included',
  'One test compares a single two-word text in the three conventions.',
  [C+'parser/creol2html_parser.py'], [('line ending normalisation', C+'parser/creol2html_parser.py CreoleParser.parse')],
  ['creole2html() return value'])
p('C06', 'The table of contents lists exactly the headings, in order and nested',
  'When the source contains the <<toc>> macro, the HTML contains one nested list at the place of the first <<toc>> whose entries are exactly the headings of the document whose level does not exceed the given depth, in document order, each nested as deep as its level, with link targets equal to the anchors put on the headings. Every further <<toc>> is shown as literal text.',
  ['inputs'], 'every sequence of heading levels and heading texts, every depth argument',
  'Tests use three fixed heading sequences; correct nesting is a statement about every sequence of levels (jumps up and down by several levels).',
  [C+'emitter/creol2html_emitter.py'],
  [('flat_list2nest_list / nested_headlines2html / add_headline / __call__ / emit', C+'emitter/creol2html_emitter.py TableOfContent')],
  ['creole2html() return value', 'TableOfContent methods'])
p('C07', 'A conversion depends on its arguments only and leaves them unchanged',
  'The result of creole2html, html2creole, html2rest, html2textile and html2markdown depends only on the arguments of that call: no earlier conversion, with the same or other arguments, changes the result of a later one, and no conversion modifies the macros or other objects passed to it. They print nothing when debug is off.',
  ['histories', 'inputs'], 'every sequence of conversion calls with every arguments, including a macro table shared between calls',
  'Each test performs one conversion with fresh arguments; a leak needs a history of calls sharing state.',
  [C+'__init__.py', C+'emitter/creol2html_emitter.py', C+'emitter/html2markdown_emitter.py', C+'shared/base_emitter.py', C+'shared/document_tree.py'],
  [('all state lives in per-call parser and emitter objects', C+'__init__.py')], ['results of consecutive calls', 'the macros argument after the call', 'stdout'])
p('C08', 'The html converters accept every HTML input',
  'For every str whose element nesting stays within the interpreter recursion limit, html2creole, html2textile, html2markdown and html2rest return a str and raise no exception, however malformed the HTML is (missing or valueless attributes, stray end tags, cells outside tables, unknown or out-of-range character references, any tag name). The one documented exception is Html2restException of html2rest, for one link text or image name used with two different targets.',
  ['inputs'], 'every input string (element nesting below the interpreter recursion limit), every tag, every attribute list',
  'Tests feed well-formed samples; whether some tag/attribute/reference combination raises is a statement about all of them.',
  [C+'parser/html_parser.py', C+'shared/base_emitter.py', C+'html_tools/deentity.py', C+'emitter/html2creole_emitter.py', C+'emitter/html2rest_emitter.py', C+'emitter/html2textile_emitter.py', C+'emitter/html2markdown_emitter.py'],
  [('handle_* event methods', C+'parser/html_parser.py HtmlParser'), ('dispatch on the node kind', C+'shared/base_emitter.py BaseEmitter.emit_node')],
  ['converter return value or exception'])
p('C09', 'The html converters keep all visible text, in order',
  'For every HTML input, every text character of the document other than whitespace and backslash reaches the result of html2creole, html2textile, html2markdown and html2rest (default handling of unknown tags), in document order: text inside any element, known or unknown, in nested lists and tables, before and after stray end tags, and at the very end of the input. Text directly inside a table but outside its cells may be placed before the table. Visible text is the text that html.parser reports outside comments, declarations and script or style content; an unknown named reference counts as `&name` without its semicolon, and references without a semicolon inside `pre` are not considered.',
  ['inputs'], 'every input string, every nesting of elements, all four converters',
  'Tests compare fixed samples; loss shows for particular nestings (cells of ragged or nested tables, text after an unbalanced tag).',
  [C+'parser/html_parser.py', C+'shared/base_emitter.py', C+'shared/markup_table.py', C+'emitter/html2creole_emitter.py', C+'emitter/html2rest_emitter.py', C+'emitter/html2textile_emitter.py', C+'emitter/html2markdown_emitter.py'],
  [('handle_data/handle_endtag keep self.cur on the rightmost path', C+'parser/html_parser.py'), ('every emit method emits all its children', C+'shared/base_emitter.py')],
  ['converter return values'])
p('C10', 'Heading levels and list nesting survive the html converters',
  'For every well-formed HTML document in which headings and lists stand at the start of the document or after a block element, a heading of level n (1 to 6) is written with exactly n `=` by html2creole, n `#` by html2markdown, `hn.` by html2textile and, by html2rest, with the n-th adornment style and adornment lines exactly as long as the title. A list item is written with the marker of the kinds of its enclosing lists (html2creole and html2textile: one `*` or `#` per enclosing ul or ol, outermost first; html2rest and html2markdown: the marker of the innermost list, indented by the depth of the lists), whatever lists precede it or are nested in its siblings.',
  ['inputs'], 'every document tree: all heading levels and titles, all nestings and sequences of ul/ol lists',
  'Tests use a few fixed list shapes; the list state is carried in emitter attributes across siblings, so errors depend on what was emitted before.',
  [C+'shared/base_emitter.py', C+'emitter/html2creole_emitter.py', C+'emitter/html2rest_emitter.py', C+'emitter/html2textile_emitter.py', C+'emitter/html2markdown_emitter.py', C+'parser/html_parser.py'],
  [('_inner_list / _list_markup', C+'shared/base_emitter.py, html2rest_emitter.py'), ('headline_emit', 'all emitters')],
  ['converter return values'])
p('C11', 'Rendered tables are rectangular and lose no cell',
  'For every table, ragged or not, the creole, textile, ReStructuredText and markdown renderings have one line per table row (plus separator lines) that starts and ends with a bar and contains every cell of that row in order, separated by bars. In the aligned renderings all cells of a column are padded to one width, so the ReStructuredText separator lines are exactly as long as the row lines they delimit.',
  ['inputs'], 'every sequence of rows of header and data cells with any text, all rendering modes',
  'Tests render two small rectangular tables.',
  [C+'shared/markup_table.py'], [('_get_preformat_info and the three get_*_table methods', C+'shared/markup_table.py MarkupTable')],
  ['MarkupTable methods', 'converter return values'])
p('C12', 'Entity decoding inverts escaping and decodes exactly once',
  'For every string s, decoding the entities of the HTML-escaped s gives s back; every decimal (ASCII digits), hexadecimal or known named reference is replaced by the character it denotes (nbsp by a space), exactly once, and all other text is unchanged (a decimal reference with other Unicode digits may be decoded or kept).',
  ['inputs'], 'every string, every code point, every named entity',
  'Doctests decode one sample string.',
  [C+'html_tools/deentity.py', C+'shared/base_emitter.py'], [('entities_regex and the replace_* methods', C+'html_tools/deentity.py Deentity')],
  ['Deentity.replace_all()', 'html converters on text with references'])
p('C13', 'Whitespace cleanup changes nothing but whitespace',
  'For every HTML string, strip_html returns a string with the same sequence of non-whitespace characters, and two pieces of text separated by whitespace and no tag stay separated by whitespace. clean_whitespace changes nothing but leading and trailing whitespace.',
  ['inputs'], 'every input string', 'Doctests show eleven samples.',
  [C+'html_tools/strip_html.py', C+'html_tools/text_tools.py'], [('strip_html / strip_tag', C+'html_tools/strip_html.py'), ('clean_whitespace', C+'html_tools/text_tools.py')],
  ['strip_html()', 'clean_whitespace()'])
p('C14', 'Unknown-tag handlers keep the content and treat the tag as chosen',
  'For every element the converter does not know, the selected handler acts on exactly that element: the default handler writes the content without the tag; escape_unknown_nodes writes escaped start and end tags (no raw `<` or `>` of the tag) around the content; use_html_macro and preformat_unknown_nodes put the tags inside html or pre macros; raise_unknown_node raises NotImplementedError. The tag text carries the tag name and all attributes, and the content of the element is always written in full between the tags.',
  ['inputs', 'configurations'], 'every unknown element with any attributes and any content, every handler',
  'Tests apply each handler to one or two fixed snippets.',
  [C+'shared/unknown_tags.py', C+'shared/base_emitter.py', C+'shared/document_tree.py', C+'shared/utils.py'],
  [('the five handlers', C+'shared/unknown_tags.py'), ('attribute rendering', C+'shared/utils.py dict2string')],
  ['html converters with unknown_emit'])
p('C15', 'html2rest defines every reference it uses, once, with one target',
  'In the result of html2rest every substitution reference to an image and every named link reference is defined exactly once in the same result, with the target it had in the HTML. One link text or image name with two different targets is never merged: Html2restException is raised instead.',
  ['inputs'], 'every sequence of links and images inside and outside table cells, any repetition of texts and targets',
  'Tests cover single references and one duplicate of each kind; reuse and flushing of definitions depends on the whole sequence.',
  [C+'emitter/html2rest_emitter.py'], [('_get_old_substitution, _substitution_data, a_emit, img_emit, document_emit, emit_node', C+'emitter/html2rest_emitter.py')],
  ['html2rest() return value'],
  [dict(name='_substitution_data / _used_substitution_*', meaning='pending definitions / names already used', where=C+'emitter/html2rest_emitter.py')])
p('C16', 'The command line tools write the converted file or leave it alone',
  'Each command line converter writes to the destination exactly the conversion of the whole source file, read and written with the chosen encoding. If the source cannot be opened, decoded, converted or encoded, an existing destination file keeps its content, and source and destination may be the same file.',
  ['inputs', 'fault_sequences', 'crash_points'], 'every source content, every encoding, failure at each step (open, decode, convert, encode), destination equal to source or existing',
  'Tests run four successful conversions to a fresh destination.',
  [C+'cmdline.py'], [('order of read, convert and write', C+'cmdline.py CreoleCLI.convert')], ['the destination file after the command'])
p('C17', 'README update and README check agree',
  'After update_rst_readme or update_markdown_readme returns, assert_rst_readme respectively assert_markdown_readme accepts the generated file, whatever the file contained before. If the file was already accepted, it is not rewritten.',
  ['inputs', 'histories'], 'every creole README content and every previous content of the generated file',
  'Tests run the update once on the repository README, which is up to date.',
  [C+'setup_utils.py'], [('change detection, written trailer and its removal', C+'setup_utils.py update_*_readme / assert_*_readme')],
  ['the generated file', 'assert_rst_readme(), assert_markdown_readme()'])
p('C18', 'rest2html is safe by default and writes clean start tags',
  'Unless the caller explicitly passes another value, rest2html runs docutils with raw HTML and file insertion disabled, for every content. Every start tag that its clean writer writes through its starttag method has only properly escaped, double-quoted attributes, never class, classes, start, frame or rules, and div start tags are not written.',
  ['inputs', 'configurations'], 'every content, every keyword argument, every tag name, attribute list and suffix',
  'Tests convert ten fixed texts and try one raw and one include directive.',
  [C+'rest_tools/clean_writer.py'], [('settings_overrides', C+'rest_tools/clean_writer.py rest2html'), ('starttag', C+'rest_tools/clean_writer.py CleanHTMLTranslator.starttag')],
  ['rest2html() return value', 'CleanHTMLTranslator.starttag()'])
p('C19', 'pypi_rest2html accepts only links with allowed schemes',
  'If pypi_rest2html returns, every reference and image URI in the document has a scheme from the allowed list; otherwise it raises. Raw HTML and file insertion are always disabled.',
  ['inputs'], 'every document, wherever in the document the URI occurs', 'A doctest converts one word without links.',
  [C+'rest_tools/pypi_rest2html.py'], [('scheme check over all nodes', C+'rest_tools/pypi_rest2html.py pypi_rest2html')], ['pypi_rest2html() return value or exception'])
p('C20', 'Macro arguments reach the macro exactly as written',
  'For every macro tag, the macro is called once, with one keyword argument per key=value word of the tag plus text: the word after the first `=` with its quotes resolved, as True/False/None or an int if it reads like one, else as str; text is the stripped text between the tags, or None for a single tag. A word without `=` or an unclosed quote is reported as malformed instead of calling the macro.',
  ['inputs'], 'every argument string and every macro text, inline, block and single-tag macros',
  'Tests use about a dozen fixed argument strings.',
  [C+'shared/utils.py', C+'parser/creol2html_parser.py', C+'emitter/creol2html_emitter.py'],
  [('string2dict', C+'shared/utils.py'), ('_add_macro', C+'parser/creol2html_parser.py'), ('macro_emit', C+'emitter/creol2html_emitter.py')],
  ['the call the macro function receives'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for e in P:
        f.write(json.dumps(e) + '\n')
