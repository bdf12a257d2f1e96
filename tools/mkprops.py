"""Writes properties.jsonl (kept as code so that the 24 entries stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m) for n, m in (state or [])],
                     observe_at=observe, hook_needed=None)))
R, PA, SE, TW = ("gopher_render/rendering.py", "gopher_render/_parser.py",
                 "gopher_render/_selectors.py", "gopher_render/_textwrap.py")

prop("C01", "Rendering never fails, whatever the HTML",
 "For every HTML text, well formed or not, and every supported configuration, feeding the text and closing the parser finishes without raising and leaves the complete result as one string, in a number of steps that grows no faster than a small power of the size of the input. Missing attribute values, unusable URLs, unclosed or stray tags, empty elements and boxes too narrow for their content may degrade the layout but never abort the rendering.",
 ["inputs", "configurations"], "All HTML strings (nesting up to 250 elements) crossed with widths, boxes, link and image placements, output formats and the documented renderer settings.",
 "The tests render about thirty small, valid fragments, nearly all with the default configuration; a crash needs an odd attribute, URL, nesting or width.",
 [PA, R, SE, TW], [("tolerant tree building", PA + " handle_starttag/handle_endtag"), ("URL classification", PA + " link target parsing"), ("box width computation", R + " Box"), ("line wrapping", TW)],
 ["exception or return of feed()/close()", "type of the parsed result", "count of executed lines per input character"])

prop("C02", "Document text is conserved, in order",
 "Every word of a document's text appears in the rendered output exactly once and in document order, and every other visible character of the output is a marker, border, indent or link entry that the elements and settings call for. This holds for any nesting of known and unknown elements, any width that the words fit in, and any wrapping, justification, margin, padding, border or placement settings; only a link's text recurs, shortened, in that link's entry.",
 ["inputs", "configurations"], "All documents built from the supported elements and unknown ones, with any whitespace, all placements and box settings.",
 "Each test looks at one fragment of a few words; loss, duplication or reordering needs particular nestings, lengths and settings.",
 [PA, R, TW], [("children rendered in order and joined", PA + " render of an element"), ("text nodes", PA + " handle_data"), ("wrapping and justification", R)],
 ["sequence of unique word tokens in the result", "multiset of remaining characters"])

prop("C03", "Output does not depend on how the input is fed; reset starts afresh",
 "Feeding a document in any number of pieces, split at any character, gives exactly the output of feeding it in one piece. Closing again without further input gives the same output again, and a complete document that was closed can be continued as if it had not been. After a reset at any moment, a parser behaves exactly like a newly constructed parser with the same configuration.",
 ["inputs", "histories"], "All documents, all ways of splitting them, and all histories of feed, close and reset calls.",
 "Every test feeds one string once and never resets.",
 [PA], [("buffering of character data", PA + " handle_data"), ("reset", PA + " reset"), ("preformatted state", PA)],
 ["result after close() for differently split feeds of the same text"], [("open element stack, link counter, preformatted state", "what survives between calls")])

prop("C04", "Parsers do not influence one another or their inputs",
 "The output for a document depends only on the document and the parser's configuration: it is the same in a fresh process, on repetition, and before, after, interleaved with or concurrently with any other renderings. Rendering never modifies the boxes, renderer maps or settings that the caller supplied, nor the defaults that later parsers start from.",
 ["histories", "schedules", "configurations"], "All sequences, interleavings and thread schedules of renderings by separate parsers with different configurations.",
 "The tests use one default parser at a time; leaks between parsers need a history of differently configured ones, or threads.",
 [PA, R], [("per-instance settings copies", R + " Renderer construction"), ("per-parser renderer map", PA + " parser construction"), ("box lists copied", R + " Box")],
 ["result of each rendering compared with a fresh process", "deep snapshot of caller-supplied and default settings"], [("class level settings dictionaries, default argument dictionaries and lists", "shared by all parsers of a process")])

prop("C05", "Renderer rules select elements as CSS defines",
 "A rule of the renderer map applies to an element exactly when its selector matches the element by the CSS definition, given the element's place in the document. This covers type, universal, class, id and attribute selectors with every CSS operator, :not(), the descendant, child, adjacent and general sibling combinators, :first-child, :last-child, :nth-child() and :nth-last-child() with any an+b argument, and selector lists; text between elements never counts as a sibling, and unsupported pseudo-classes and all pseudo-elements match nothing.",
 ["inputs", "configurations"], "All document trees and all selectors of the supported grammar in lower case.",
 "The tests evaluate a few dozen hand-picked selectors on fixed trees of five nodes, mostly with mock elements.",
 [SE, PA], [("selector evaluation", SE), ("element list without text", PA + " tag_children")],
 ["which elements a rule's settings reach, seen from a caller-supplied renderer", "match result of the selector matcher"])

prop("C06", "The most specific rule decides, setting by setting",
 "When several rules match an element, it is rendered by the renderer of the most specific matching rule that names one, and each setting takes its value from the most specific matching rule that gives it; among equally specific rules the later one wins, and a selector list counts with its most specific matching selector. Settings that no rule gives keep the renderer's own defaults, rules that give only settings leave the choice of renderer alone, and a caller's rule replaces the built-in rule with the same selector. The same holds for the rules of extracted links.",
 ["inputs", "configurations"], "All sets of rules (renderer, settings, both) over all documents, for elements, links and images.",
 "No test configures a single rule; only the built-in map is exercised, through its visible defaults.",
 [PA, SE, R], [("rule collection and ordering", PA + " RendererMap"), ("specificity order", SE + " Specificity"), ("settings merge", R + " Renderer construction")],
 ["class and effective settings with which each element is rendered, seen from caller-supplied renderers"])

prop("C07", "Boxes nest exactly: widths, borders, padding and margins add up",
 "For blocks nested to any depth with any margins, padding, borders and line prefixes, the width available to a block is the one available inside its parent less its own left and right margins, and its content gets that width less its own borders, padding and line prefix. Every line of a block whose content fits, menu lines of a gophermap apart, is exactly as wide as the block, with its left and right border, padding and margin characters in place; its top and bottom borders span exactly that width, and its vertical margins and padding contribute exactly the configured number of lines.",
 ["inputs", "configurations"], "All nestings of block elements with all box settings that leave room for the content.",
 "Tests check the line length of unnested default blocks only; no test sets a border, padding or horizontal margin.",
 [R], [("width bookkeeping", R + " Box"), ("border and padding rendering", R + " BlockRenderer"), ("outer margins", PA + " close")],
 ["every output line, compared with an independent layout model"], [("margins, padding, borders accumulated from ancestors", "width left for the content")])

prop("C08", "Lines are wrapped greedily within the width, ignoring escapes",
 "Wrapped text never exceeds the available width in visible characters, lines break only at white space, after hyphens and inside words that do not fit on any line, and a line is never ended while the next piece still fits. ANSI escape sequences take up no width and are never split, dropped or reordered, and for text without them the result is exactly that of the standard library's wrapping with the same options.",
 ["inputs", "configurations"], "All texts with and without escape sequences, all widths and all wrapping options.",
 "One test wraps one plain paragraph at one width and only checks the padded line lengths.",
 [TW, R], [("chunk placement with visible lengths", TW), ("paragraph, list item and definition wrapping", R)],
 ["lines returned by the wrapping helper", "lines of rendered paragraphs, list items and definitions"])

prop("C09", "Justification aligns lines and changes nothing but spaces",
 "Full justification makes every line but the last of a wrapped text exactly as wide as the available width by widening existing gaps, by amounts that differ by at most one space, unless the line has no gap; right justification makes lines end at the right edge; centring leaves left and right space differing by at most one; left justification leaves lines as wrapped. No justification changes the words, their order or the distribution of words over lines, and escape sequences do not disturb the alignment.",
 ["inputs", "configurations"], "All texts, widths, indents and escape sequences, in paragraphs, list items and definitions.",
 "No test uses full, right or centre justification.",
 [R, TW], [("justification helpers", R + " full_justify, right_justify, center_justify, left_justify")],
 ["lines returned by the justification helpers and seen in rendered blocks, against the unjustified wrap"])

prop("C10", "Link references and link entries correspond one to one",
 "Links and images that are not placed inline are numbered from 1 upwards in document order, each number standing exactly once in the text where the link was and exactly once in front of an entry that carries the link's full target and its description; there is no entry without reference or reference without entry, and a link inside an element that is not rendered has neither. Footer entries follow the whole content in number order and after-block entries end the innermost block that contains the link, while links placed inline show their text and target in place and use no number. This holds for every combination of link placement and image placement.",
 ["inputs", "configurations"], "All documents with links and images anywhere (text, lists, quotes, top level), all nine placement combinations, with and without titles, alternative texts and targets.",
 "No test contains a link or an image.",
 [PA, R], [("numbering and pending entries", PA + " handle_starttag/close"), ("reference and entry rendering", R + " link and image renderers")],
 ["reference numbers in the text and entries in the output, matched as a bijection against the document"], [("next link number, pending footer links, pending links of an element", "links still owed an entry")])

prop("C11", "Every gophermap link line is a well-formed menu item",
 "In gophermap output every link placed outside the text yields exactly one menu line that, whatever blocks the link is in, starts at the first column and has exactly four tab-separated fields: item type and label, selector, host and port. Web and other foreign URLs give type h, selector URL: followed by the target and the configured host and port; gopher URLs give their own host and port (70 if none); relative targets give the configured host and port; the latter two give their whole path as the selector and a type that follows the extension of its last component. No title, text (in which tabs become spaces), attribute value or margin setting can add fields or lines, and configurations that cannot work (inline links, no host) are refused.",
 ["inputs", "configurations"], "All link targets, titles and texts, and all hosts, ports and page margins, with footer placement and with after-block placement at top level.",
 "No test produces gophermap output.",
 [PA, R], [("target parsing", PA + " LinkParser"), ("menu line template", R + " extracted link renderers"), ("page margin", PA + " close")],
 ["all output lines containing a tab, parsed as gopher menu items and compared with the document's links"])

prop("C12", "List items are marked, numbered and aligned at any depth",
 "Each item of an unordered list starts its own line with its bullet, each item of an ordered list with its number, counting from the configured start by the configured step over the items alone, and each definition with its marker, as their line templates say. Every further line of an item, including nested lists, paragraphs and line breaks but not menu lines of a gophermap, is indented by the width of its marker, at every nesting depth and whatever the lengths of the texts or the whitespace in the source.",
 ["inputs", "configurations"], "All list trees (ul, ol, dl, nested, with paragraphs), item lengths, widths and whitespace layouts.",
 "Tests cover flat lists and one list nested once, with one- to three-word items in compact source.",
 [R, PA], [("item rendering", R + " ListItemRenderer"), ("ordinals", R + " OrderedListItemRenderer"), ("default margins", PA + " built-in rules")],
 ["every output line of rendered lists, compared with an independent layout of the list tree"])

prop("C13", "Every line of a quotation carries its prefix",
 "Every line between the margins of a block quotation, menu lines of a gophermap apart, starts with the quotation prefix, once per level of nested quotation, for whatever blocks it contains, and the quoted text wraps within the width left after the prefixes. The first quoted paragraph is not preceded and the last not followed by an empty line, and paragraphs in between are separated by exactly one prefixed empty line.",
 ["inputs", "configurations"], "All quotations of paragraphs, lists, preformatted text and nested quotations, all widths.",
 "One test quotes two one-word paragraphs.",
 [R, PA], [("line prefix", R + " BlockQuoteRenderer"), ("paragraph margins in quotations", PA + " built-in rules")],
 ["every output line of rendered quotations, compared with an independent layout"])

prop("C14", "Preformatted text is reproduced verbatim",
 "Each line of a preformatted element appears as one output line holding exactly the indent, after what the surrounding blocks put in front of their lines, followed by the line's characters, entities decoded, whatever the width and whatever inline elements the text contains. Nothing in it is collapsed, wrapped, trimmed on the left or taken for markup, blank lines and inner runs of spaces included (only tabs become spaces in gophermaps), and text before and after the element is not affected.",
 ["inputs", "configurations"], "All preformatted texts (without exotic Unicode line separators) at top level and in divisions, quotations, list items, definitions and paragraphs, all widths, feeds and surrounding content.",
 "One test renders three short lines of code.",
 [PA, R], [("preformatted state", PA + " handle_starttag/handle_data"), ("line rendering", R + " PreRenderer, CodeRenderer")],
 ["output lines between the margins of the element, compared character by character"], [("preformatted state", "whether whitespace is significant")])

prop("C15", "Inline markup wraps exactly its content and content is never code",
 "Emphasis, strong, underline, insertion, strikethrough, deletion, code and generic inline elements render as their rendered content placed in their template, in any nesting and order, and a line break element renders as one line break. Document text, attribute values, titles and targets are always data: braces, backslashes, percent signs, markup-like characters and decoded entities come out unchanged and never act as template, format or markup.",
 ["inputs", "configurations"], "All nestings of inline elements with arbitrary text and attribute values, with default and configured templates.",
 "Tests render each inline element once, alone, around one word.",
 [R, PA], [("templates", R + " InlineRenderer and subclasses"), ("entity decoding", PA + " parser construction")],
 ["output compared with the composition of templates over the element tree"])

prop("C16", "Headings show level, decoration and underline exactly",
 "A heading of level n renders on its own line as n hashes, its content and n hashes, between its margins. A configured heading renderer applies its template, capitals, letter spacing, centring and underline so that the underline is as long as the heading text or, if full, as the available width, and is aligned with it, and none of the decorations alters the characters of the content otherwise.",
 ["inputs", "configurations"], "All heading levels, contents and combinations of heading settings and widths.",
 "Tests render six one-word default headings; no heading setting is ever configured.",
 [R], [("heading rendering", R + " HeaderRenderer, MarkdownHeaderRenderer")],
 ["output lines of rendered headings compared with an independent composition"])

prop("C17", "ANSI styling is balanced, correctly encoded and invisible",
 "An element rendered with ANSI styles shows exactly its content when escape sequences are removed, enclosed by one enabling sequence per configured effect, font and colour and by the matching disabling sequences (or one full reset), so that after it no style remains active. Colours given by name, palette number (0 included), RGB triple or three- or six-digit HTML notation are encoded as the standard sequences for foreground or background.",
 ["inputs", "configurations"], "All combinations of effects, fonts, colours in every notation, contents and nestings.",
 "No test uses ANSI styling.",
 [R], [("escape code rendering", R + " AnsiEscapeCodeRenderer"), ("colour encoding", R)],
 ["output fed to an SGR terminal state machine: visible text, active styles per character, state at the end"])

prop("C18", "Code themes only add colour",
 "Every bundled code theme can be used as a renderer map with any document that has the highlighter's token classes on its span elements, and removing the escape sequences from the themed output gives the output without the theme, trailing spaces apart. Every character of a token shows exactly the colours and effects that the theme gives the token's classes inside those of the elements around it, and neither after the token nor at the end is any of its styles left.",
 ["inputs", "configurations"], "All bundled themes over highlighted code of many languages and arbitrary documents with the highlighter's classes on spans.",
 "No test loads a theme beyond importing it.",
 ["gopher_render/code_themes/*.py", R, PA], [("theme rule maps", "gopher_render/code_themes"), ("escape code rendering", R)],
 ["SGR state machine over themed output, compared with the themeless output and the theme's own table"])

prop("C19", "White space in the source is insignificant outside preformatted text",
 "Outside preformatted text, any run of spaces, tabs, form feeds and line breaks (line feeds or carriage returns) inside the text renders as one word separation, and white space directly at the start and end of a paragraph, item, heading or other block or next to block-level elements has no effect on the output. Re-indenting, pretty-printing or compacting a document at such places therefore never changes its rendering.",
 ["inputs"], "All documents and all ways of re-spacing them at insignificant places.",
 "Two tests render one re-spaced paragraph each.",
 [PA, R], [("text node normalisation", PA + " DataParser"), ("paragraph stripping", R + " ParagraphRenderer")],
 ["outputs of differently spaced versions of the same document, compared with each other"])

prop("C20", "Renderer settings follow the class hierarchy",
 "The settings a renderer starts from are those of its class and all its base classes, a class overriding its bases in method resolution order, whatever their values; settings passed for an element override them for that element only. A class never changes the settings of another, settings can be read and written equally as attributes and as items, and deleting or reading a missing one fails as for an ordinary object or mapping.",
 ["programs", "histories", "configurations"], "All class hierarchies of renderers (multiple inheritance included), all settings values, all sequences of settings accesses (names of dictionary methods as items only).",
 "Tests construct three renderers without looking at their settings and touch single keys of a settings object.",
 [R, "gopher_render/_namedict.py"], [("settings collection", R + " Renderer construction and metaclass"), ("attribute dictionary", "gopher_render/_namedict.py")],
 ["effective settings of instances of generated classes", "settings object compared with a dict model operation by operation"])

prop("C21", "Page margins and trailing space trimming are exact",
 "The page's top and bottom margins add exactly the configured number of empty lines before and after the content, and its left margin precedes every body line that is not a gophermap menu line. With optimisation on, the output is exactly the unoptimised output with the white space at the end of every line removed: no line ends in white space and nothing else differs.",
 ["inputs", "configurations"], "All documents and page boxes, in both output formats, with optimisation on and off.",
 "Tests use no page margins and compare nothing between optimised and unoptimised output.",
 [PA], [("page indent and margins", PA + " close"), ("trimming", PA + " optimisation")],
 ["pairs of outputs of the same document with and without optimisation or margins"])

prop("C22", "The element tree follows the tags; stray end tags change nothing",
 "Each element and text belongs to the innermost element open at that point, void elements (line breaks, rules, images, inputs and the like) never contain anything whether or not written as self-closing, and an end tag closes the innermost open element if it has that name and otherwise has no effect. A renderer sees the attributes of its element as they are written, with the class attribute as the list of its names. Unclosed elements extend to the end of the document and comments, declarations and processing instructions leave no trace in the output.",
 ["inputs"], "All sequences of start tags, end tags, void tags, text, comments and declarations.",
 "Tests contain only properly nested, closed tags apart from one br.",
 [PA], [("open element stack", PA + " handle_starttag/handle_endtag/close"), ("void elements", PA + " TagParser")],
 ["ancestor chain of every element and text, seen from caller-supplied renderers, compared with an independent stack machine"], [("open element stack", "innermost open element")])

prop("C23", "The command line tool delivers exactly the library's rendering",
 "For every readable source file the command prints the rendering of the file, converted from Markdown first if its name ends in .md and taken as HTML otherwise, and writes the same rendering to the destination file; with dump requested, the HTML is printed before it. Nothing else appears on standard output, no other file changes and the exit status is zero; a missing, undecodable or otherwise unreadable source or an unusable command line gives a non-zero status and leaves the destination untouched. It does so however it is started: as a module or through either declared entry point.",
 ["inputs", "configurations", "fault_sequences"], "All Markdown and HTML sources, all file names, relative and absolute, with and without dump, existing destinations and unreadable sources.",
 "No test runs the command line tool.",
 ["gopher_render/cli.py", "gopher_render/__main__.py", PA], [("command", "gopher_render/cli.py main")],
 ["stdout, exit status and files of the process, compared with the library's rendering of the same source"])

prop("C24", "Each element is rendered once, children first, output used verbatim",
 "During a rendering every element of the document that is not inside a suppressed position is handed exactly once to the renderer chosen for it, after all its children and in document order, with content equal to its children's rendered outputs in order; what the renderer returns is used verbatim by the parent. Extracted links are handed once more, to their entry renderer, when their entry is due, and an element whose renderer returns an empty string contributes nothing.",
 ["inputs", "configurations"], "All documents, placements and caller-supplied renderers.",
 "No test supplies a renderer of its own.",
 [PA, R], [("recursive rendering", PA + " render of an element"), ("entry rendering", PA + " rendering of extracted links")],
 ["event log of construction and render calls of caller-supplied renderers, checked offline against the document tree"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
