#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the JSON stays readable to edit)."""
import json
R='readability.go'; D='domparser.go'; O='options.go'; P='readerable.go'; X='regexps.go'; U='util.go'; C='cmd/readability/readability.go'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
API='return values of New, Parse and IsProbablyReaderable'
p('C01','Every page is handled: no panic, no process exit, no runaway work',
 'For every HTML string, page URI and combination of documented options, New, Parse and IsProbablyReaderable come back with a result or an error after work bounded by the size of the page: they never panic, exit the process, exhaust the stack or loop. New rejects exactly the empty input and documents in which no body element is found, and exactly one of result and error is set.',
 ['inputs','configurations'],'all byte strings as pages (tag soup, truncated pages, hostile attributes, arbitrary JSON-LD), all page URIs, all option values',
 'The 119 fixture pages are well formed and one configuration is used; a crash needs an odd attribute, JSON type, nesting or retry that no fixture has.',
 [R,D,P,U],[('token loop and tree building','domparser.go readNode/parse'),('retry loop with relaxed flags','readability.go grabArticle'),('type checks on JSON-LD values','readability.go getJSONLD'),('URL rewriting','readability.go fixRelativeUris')],[API,'process exit status','CPU time per page'])
p('C02','Scripts, styles, form controls and foreign embeds never reach the article',
 'HTMLContent, read by a standard HTML parser, never contains a script, noscript, style, link, footer, aside, input, textarea, select or button element, nor an object, embed or iframe that does not point at an allowed video. No link in it has a javascript: target, and the text inside such links is kept as plain content.',
 ['inputs','configurations'],'all pages, wherever the element sits, however the page had to be retried, and all allowed-video patterns',
 'Fixtures only contain these elements in a few positions and never in the retried, re-parsed or converted parts of the pipeline.',
 [R,D,X],[('removal of script/noscript/style before extraction','readability.go removeScripts/prepDocument'),('unconditional cleaning of tags','readability.go prepArticle/clean'),('unwrapping of javascript: links','readability.go fixRelativeUris')],['Result.HTMLContent','node handed to the Serializer option'])
p('C03','Extracted text is the page\'s own text: verbatim, in order, never duplicated',
 'Every text run of the page\'s body ends up in TextContent either whole and unaltered (character references decoded once) or not at all. The runs that do appear keep the order they have in the page, none appears more often than in the page, and nothing else appears; words which white space or line breaks keep apart in running text stay apart.',
 ['inputs','configurations'],'all well-formed pages, including those that force retries, reparsing, unwrapping and re-parenting of nodes',
 'Tests compare a handful of final documents; they cannot show that node moves, retries and reserialisation never lose, split, repeat or reorder text.',
 [R,D],[('node moves','domparser.go AppendChild/RemoveChild/ReplaceChild'),('page cache and restore between attempts','readability.go grabArticle'),('text node encoding/decoding','domparser.go decodeHTML and text nodes')],['Result.TextContent','Result.HTMLContent'])
p('C04','The whole main article survives extraction',
 'For a page with one clearly dominant block of prose (many long, link-poor paragraphs under a common container that is not marked as boilerplate), every paragraph, heading, list item, quote, preformatted block, inline element and picture of that block is in the extracted content, whatever container, nesting and decoration is used.',
 ['inputs'],'all pages with a dominant prose block: container element, depth, paragraph style, position, competing boilerplate, text script',
 'Fixtures are a fixed sample of page layouts; loss of one paragraph in one layout combination is not sampled.',
 [R],[('scoring of paragraphs and their ancestors','readability.go grabArticle'),('top candidate promotion','readability.go grabArticle'),('conditional cleaning','readability.go cleanConditionally')],['Result.TextContent','Result.HTMLContent'])
p('C05','Blocks marked as page furniture are left out of the article',
 'When the first extraction attempt is accepted, nothing is extracted from an element whose class or id names page furniture (ad break, banner, breadcrumbs, comment, community, disqus, extra, footer, gdpr, header, legends, menu, related, remark, replies, rss, shoutbox, sidebar, skyscraper, social, sponsor, supplemental, agegate, pagination, pager, popup and the like, in any letter case) without also naming content (and, article, body, column, content, main, shadow), except links and what is inside a table or code element. In every attempt, elements with a menu, menubar, complementary, navigation, alert, alertdialog or dialog role are left out.',
 ['inputs','configurations'],'every keyword, case, position (class or id, alone or within a longer name), element and nesting',
 'Each keyword occurs in few or no fixtures, and rarely in a position where leaving it in would show.',
 [R,X],[('unlikely candidate pattern and its exceptions','readability.go grabArticle, regexps.go'),('role list','readability.go grabArticle')],['Result.TextContent'])
p('C06','Content hidden from the reader is never extracted',
 'No text or picture inside an element that the page hides (inline style display:none or visibility:hidden, the hidden attribute, aria-hidden="true" unless the class marks a fallback image, or a modal dialog with aria-modal="true" and role="dialog") appears in the extracted content, in whichever attempt the content was found. Elements that only look similar (aria-hidden="false", other display or visibility values) are not treated as hidden.',
 ['inputs','configurations'],'every way of hiding, element, position, nesting, spelling of the style attribute and number of retries',
 'Fixtures contain few hidden elements, none in retried pages or in wrapped single paragraphs.',
 [R,D],[('visibility check during traversal','readability.go isProbablyVisible/grabArticle'),('inline style lookup','domparser.go getStyle')],['Result.TextContent','Result.HTMLContent'])
p('C07','Links and media in the article resolve to the right absolute URL',
 'In HTMLContent every link target, image, media source, poster and srcset candidate is the absolute URL that the original reference resolves to against the page\'s base (the base element if there is one, else the page URI), with percent-encoding, query and fragment intact. Fragment-only links stay as they are when the page declares no other base, references that cannot be parsed stay untouched, and srcset keeps its candidates, descriptors and order.',
 ['inputs','configurations'],'all references (relative, rooted, protocol-relative, absolute, query, fragment, encoded, opaque) times all page URIs and base elements',
 'Fixtures use one page URI and mostly rooted or absolute references.',
 [R,D,X],[('URL rewriting','readability.go fixRelativeUris'),('base computation','domparser.go getBaseURI')],['Result.HTMLContent'])
p('C08','Class and presentational attributes are stripped, all others survive',
 'Unless classes are kept on request, the only class names in the article are "page" and those asked to be preserved; with KeepClasses every surviving element keeps its class attribute and nothing else changes. Outside svg no element carries a presentational attribute (style, align, background, bgcolor, border, cellpadding, cellspacing, frame, hspace, rules, valign, vspace), nor a table, th, td, hr or pre a width or height, while every other attribute of surviving elements keeps its value.',
 ['inputs','configurations'],'all elements, attribute combinations, class lists and preserve lists',
 'Tests use one preserve list and never KeepClasses.',
 [R,O],[('class cleaning','readability.go cleanClasses'),('style cleaning','readability.go cleanStyles'),('preserve list','options.go ClassesToPreserve')],['Result.HTMLContent','node handed to the Serializer option'])
p('C09','The fields of a result agree with each other and with the callbacks',
 'HTMLContent is exactly what the serializer returned for the article, which is a div holding one page wrapper (id readability-page-1, class page); TextContent is that article\'s text, or exactly what the text converter returned when given HTMLContent; Length is the number of characters of TextContent. The serializer, and the converter if any, is called once per successful Parse.',
 ['inputs','configurations'],'all pages, all serializers and text converters',
 'No test uses these options or looks at Length.',
 [R,O],[('result assembly','readability.go Parse')],['Result fields','Serializer and Html2Text callbacks'])
p('C10','The serialized article is faithful: text and attributes never become markup',
 'Reading HTMLContent with a standard HTML tokenizer gives back exactly the elements, attributes and text of the article tree. Text, attribute values, comments, CDATA sections and raw-text elements of the page, however escaped, never turn into elements or attributes of the article, also after the page was retried and reparsed. Empty void elements are written without a closing tag.',
 ['inputs'],'all texts and attribute values, escaping styles, quoting, raw-text elements, and numbers of reparses',
 'Fixtures hardly contain escaped markup in the article; injection needs hostile pages.',
 [D,R],[('serialization','domparser.go GetInnerHTML/encodeHTML'),('text node parsing','domparser.go readNode'),('page cache and restore','readability.go grabArticle')],['Result.HTMLContent','node handed to the Serializer option'])
p('C11','Extractions are deterministic, independent of each other and free of data races',
 'The outcome of an extraction or readerability check depends only on its page, URI and options: it is the same on every repetition, after any history of other extractions, and when any number of independent extractions with different options (or sharing option values) run concurrently. Concurrent use of separate instances has no data race.',
 ['schedules','histories','configurations'],'all interleavings and histories of independent extractions',
 'Tests run each page once, sequentially, with one configuration.',
 [R,D,O,X],[('per-instance options and state','options.go defaultOpts, readability.go New'),('shared tables and patterns are only read','regexps.go, domparser.go, readability.go vars')],[API,'race detector reports'])
p('C12','The node tree stays consistent under every sequence of edits',
 'After any sequence of AppendChild, RemoveChild, ReplaceChild, SetInnerHTML, SetTextContent and attribute edits on nodes, the child lists, element lists, parent and sibling links of the tree agree with each other and with the edits made, a removed node keeps no link into its former tree, and removing a node that is not a child is an error that changes nothing. Attributes behave as a map from name to value, and reading text or HTML back reflects the edits.',
 ['histories'],'all finite edit sequences over any nodes of the tree (no node placed under itself)',
 'The tests run a dozen hand-written edits on one small tree.',
 [D,U],[('link maintenance','domparser.go AppendChild/RemoveChild/ReplaceChild'),('wholesale replacement','domparser.go SetInnerHTML/SetTextContent')],['exported fields and methods of Node'])
p('C13','Metadata comes from the declared source of highest precedence',
 'Title, byline, excerpt, site name and published time are taken from JSON-LD, else from the page\'s meta elements in the fixed order dc, dcterm, og, weibo:article, weibo:webpage, plain name, twitter (creator/author for the byline, og:site_name for the site, article:published_time for the time), trimmed and with escaped entities decoded; names match in any case, with spaces ignored and dots or colons as separators, and the last of equal names wins. Without a description the excerpt is the trimmed text of the article\'s first paragraph.',
 ['inputs'],'all subsets, spellings and orders of metadata declarations',
 'Each fixture has one combination of declarations.',
 [R,X,U],[('collection and precedence','readability.go getArticleMetadata'),('name patterns','regexps.go')],['Result.Title/Byline/Excerpt/SiteName/PublishedTime'])
p('C14','JSON-LD is used only if it describes an article, and never breaks a page',
 'Metadata is taken from the first JSON-LD script that is valid JSON with a schema.org context and an article type (directly or within @graph): headline or name (whichever resembles the page title when they differ, else name), author name or the names of all listed authors, description, publisher name and date. Any other JSON-LD, whatever its shape, is ignored as if absent, and so is all JSON-LD when disabled.',
 ['inputs','configurations'],'all JSON values in ld+json scripts, all combinations of several scripts',
 'A few fixtures have JSON-LD, all well typed.',
 [R,X],[('JSON-LD extraction','readability.go getJSONLD')],['Result metadata fields'])
p('C15','The title is derived from the title element by the documented rules',
 'With no metadata title, the title is the title element\'s text with the site part cut off: when a separator ( | - \\ / > » ) with spaces around it occurs, what follows the last separator, or, if only one word would remain, the first part instead; else, with a colon and no h1 or h2 repeating the full title, what precedes the last colon, or the first one if only one word would remain, but nothing if more than five words precede the first; else a single h1 replaces titles shorter than 15 or longer than 150 characters. The original is used when four words or fewer are left (except hierarchical titles, with \\ / > or », losing one word).',
 ['inputs'],'all title texts, separators, colons, lengths and headings',
 'Fixtures sample a few dozen titles, most of them with metadata that takes precedence.',
 [R,X],[('title heuristics','readability.go getArticleTitle')],['Result.Title'])
p('C16','The readerability verdict follows the visible amount of prose',
 'IsProbablyReaderable is true exactly when the p, pre and article elements, and the div elements with br children (each counted once), that are not marked as page furniture and are not paragraphs in list items, sum up to more than the minimum score, each visible by its own attributes and with at least the minimum length contributing the square root of its trimmed length in characters above that minimum. The three options replace the minimum length, the minimum score and the visibility test, and raising a minimum never turns false into true.',
 ['inputs','configurations'],'all pages, thresholds and visibility tests',
 'Tests look at one verdict per fixture with default options, far away from the thresholds.',
 [P,U,O],[('node selection and scoring','readerable.go IsProbablyReaderable'),('visibility','readerable.go isNodeVisible')],['IsProbablyReaderable','VisibilityChecker callback'])
p('C17','The element limit is exact and has no other effect',
 'With MaxElemsToParse(n), n > 0, Parse fails exactly on documents with more than n elements; otherwise, and for n <= 0, the result is the one obtained without a limit.',
 ['inputs','configurations'],'all documents and limits, in particular at the boundary',
 'No test sets the option.',
 [R,O],[('element count','readability.go Parse')],[API])
p('C18','Short results trigger retries, and the best attempt is what is returned',
 'If the text of the first, strictest attempt reaches CharThreshold characters, that attempt is the result; otherwise rules are relaxed one after the other (furniture removal, class weights, conditional cleaning) on the restored page until the threshold is reached, and failing that the longest attempt is returned. Parse reports failure only if no attempt found any text, so a page with visible text outside footers, asides and form controls always yields a result.',
 ['inputs','configurations'],'all pages and thresholds, in particular at the boundary',
 'Tests use the default threshold; few fixtures are short, and none compares attempts.',
 [R,O],[('attempt loop','readability.go grabArticle'),('restoring the page','readability.go grabArticle, domparser.go SetInnerHTML')],[API])
p('C19','Pictures end up loadable',
 'Lazily loaded pictures of the article get the real address from their data attributes as src or srcset, tiny base64 placeholders are dropped when another attribute names the real picture, a figure without picture gets one from its attributes, and a picture followed by a noscript copy is replaced by that copy, keeping differing addresses of the original. Pictures that already have a real source and no lazy class are left unchanged.',
 ['inputs'],'all attribute combinations of img, picture and figure, and noscript arrangements',
 'Fixtures show a few lazy loading schemes.',
 [R,X],[('lazy image fixing','readability.go fixLazyImages'),('noscript unwrapping','readability.go unwrapNoscriptImages')],['Result.HTMLContent'])
p('C20','Blocks inside the article are dropped exactly when they look like junk',
 'In the first attempt, a form, fieldset, table, ul or div within the article is dropped if its class and id weigh negative, or if it has fewer than ten commas and too many images, list items, inputs, links or embeds for its paragraphs or too little text; it is kept otherwise, and always if it is or is inside a data table, is inside code, or holds an allowed video; too many or too small pictures do not count against it inside a figure. Elements with a share marker in class or id and under 500 characters, and h1/h2 headings with negative class weight, are dropped.',
 ['inputs','configurations'],'all block contents around each threshold, all class and id weights',
 'Fixtures pin the outcome for a sample of blocks, not the rule.',
 [R,X],[('conditional cleaning','readability.go cleanConditionally'),('class weight','readability.go getClassWeight'),('share and header cleaning','readability.go prepArticle/cleanHeaders')],['Result.HTMLContent'])
p('C21','Data tables are kept whole; single-cell layout tables are unwrapped',
 'A table in the article that is a data table (summary, non-empty caption, col/colgroup/tfoot/thead/th descendant, at least 10 rows, more than 4 columns or more than 10 cells, counting row and column spans, and neither role="presentation" nor datatable="0" nor, short of the former marks, a nested table) is kept with all its rows and cells. A table with a single cell is replaced by the content of that cell.',
 ['inputs'],'all table shapes, spans and markers around each threshold',
 'Fixtures contain few tables, none near a threshold.',
 [R],[('data table detection','readability.go markDataTables/getRowAndColumnCount'),('single-cell unwrapping','readability.go prepArticle')],['Result.HTMLContent'])
p('C22','Byline, language and direction are read off the page',
 'Without a metadata byline the byline is the trimmed text of the first element in document order marked as author (rel, itemprop, class or id) with 1 to 99 characters, leaving out hidden elements and page furniture, and the attempt that finds it leaves that element out of the article; other elements so marked stay. A metadata byline takes precedence. Lang is the lang attribute of the root element, and Dir the dir attribute nearest to the extracted block among its parent, itself and its ancestors.',
 ['inputs'],'all markers, positions, lengths around the limits, and dir/lang placements',
 'Fixtures sample a few bylines and directions.',
 [R,X],[('byline check','readability.go checkByline/isValidByline'),('lang and dir','readability.go grabArticle')],['Result.Byline/Lang/Dir'])
p('C23','The command prints exactly the extracted article of the page it fetched',
 'readability URL prints on standard output the text content, and with -o html or -output html the HTML content, that the library extracts from the complete body served for the URL (after redirects, whatever the status) with the URL as page address, nothing else, and exits 0. Without a URL, if the page cannot be fetched completely or no article can be extracted, it prints a message and exits with a non-zero status; -v only adds logging on standard error.',
 ['inputs','configurations','fault_sequences'],'all pages, flags and fetch failures',
 'The command has no test at all.',
 [C],[('command','cmd/readability/readability.go main')],['standard output and exit status of the command'])
p('C24','Embedded videos from allowed sites survive, all other embeds do not',
 'An iframe, embed or object in the article is kept exactly when one of its attributes (or, for object, its inner HTML) matches the allowed-video pattern, by default YouTube, Vimeo, Dailymotion, QQ video, Internet Archive, Wikimedia and Twitch addresses. AllowedVideoRegex replaces that pattern, and the presence of an allowed video keeps its enclosing block from being dropped as junk.',
 ['inputs','configurations'],'all embed elements, attributes, addresses and patterns',
 'Fixtures embed videos from two or three sites with the default pattern.',
 [R,X,O],[('embed cleaning','readability.go clean/cleanConditionally'),('default pattern','regexps.go videos')],['Result.HTMLContent'])
p('C25','The article uses normalized structure',
 'The extracted content has no h1 or font element (they become h2 and span with content intact), no empty paragraph without media, no heading that is empty in the page, and, its container aside, no div or section that is empty or merely wraps a single div or section (the attributes of such a wrapper move to what it wraps). Runs of two or more line breaks, with only white space, comments, scripts or styles between them, separate paragraphs: the text and inline elements after such a run up to the next run or block end up in a paragraph of their own, single line breaks included, and no such run remains. The first h1 or h2 of which more than three quarters repeat the title is removed, others stay.',
 ['inputs'],'all headings, break runs with any whitespace, nestings of wrappers',
 'Fixtures sample these shapes only as far as they occur.',
 [R],[('break replacement','readability.go replaceBrs'),('nested element simplification','readability.go simplifyNestedElements'),('paragraph and heading cleanup','readability.go prepArticle'),('title header removal','readability.go headerDuplicatesTitle')],['Result.HTMLContent'])
p('C26','Related siblings of the main block are joined, unrelated ones are not',
 'The block with clearly the most prose is the one selected, wherever it stands in the page: each paragraph of 25 or more characters gives 1 point, 1 for each comma-separated part and 1 for each 100 characters (at most 3) to its parent, half to its grandparent and less further up, and links and element types weigh in; a common ancestor of several blocks of about equal weight, or a richer parent, is taken instead. Of the siblings of the selected block, paragraphs with more than 80 characters and a link density under 0.25, paragraphs with fewer than 80 characters, no links and the end of a sentence in them, and blocks whose score (plus a fifth of that of the selected block if they have the same class) reaches 10 and a fifth of that of the selected block are part of the article in page order; other siblings are not.',
 ['inputs'],'all arrangements of siblings around the thresholds, and of competing blocks',
 'Fixtures sample few sibling arrangements.',
 [R],[('sibling joining','readability.go grabArticle'),('candidate ranking','readability.go grabArticle')],['Result.TextContent'])
with open('/verif/properties.jsonl','w') as f:
    for q in props: f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(props))
