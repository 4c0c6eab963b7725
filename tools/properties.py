"""Writes properties.jsonl."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
L, T = 'src/lib.rs', 'src/types.rs'
PA, PR, OB, TO, UT, ST, KIT = ('src/internals/%s.rs' % x for x in ('parser', 'primitives', 'objects', 'toml', 'util', 'ast/structs', '?'))
KIT = 'src/bin/tomlkit.rs'
rows = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    rows.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                  state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None)))


MAP = ('map', 'path -> value and children; what lookups read', PA + ' Parser.map')
TREE = ('root', 'expressions, with all their formatting', PA + ' Parser.root, ' + ST)
ERRS = ('errors', 'errors found so far', PA + ' Parser.errors')
KEYS = ('last_array_tables, last_table, keychain, array_error', 'where in the document the parser is', PA + ' Parser')

p('P01', 'Displaying a parsed document gives back its text, byte for byte',
  'After parsing any text, displaying the parser gives exactly the part of the text that was parsed: together with the leftover that the result reports it is the whole input. Blanks, newline styles (LF and CR LF), comments, number and string spellings, blank lines and trailing commas are all reproduced as they were written.',
  ['inputs'], 'all texts (nesting bounded by the stack), valid or not', 'Tests display a few dozen sample documents; each place where formatting may occur is a separate field that can be dropped or swapped, in combinations no sample has.',
  [L, PA, ST, OB, TO], [('Display of every syntax node', ST + ' impl Display'), ('separators captured by the grammar', OB + ' array_values, table_keyval'), ('expressions', TO)],
  ['TOMLParser Display after parse', 'leftover in ParseResult'], [TREE])
p('P02', 'Parse results say how much was read and whether there were errors',
  'Parsing reads as many leading lines (expressions) as conform to the TOML 0.4 grammar as this library takes it and stops at the first that does not. The result is full exactly if nothing is left over and no error was found, the full-with-errors or partial variants exactly if errors were found or text is left over, and the leftover is exactly the text from the first expression on that could not be read.',
  ['inputs'], 'all texts', 'Whether each of the infinitely many texts is accepted, and where reading stops, is a matter of the whole grammar; tests have positive samples and few negative ones.',
  [PA, TO, PR, OB, UT], [('choice of the result', PA + ' parse'), ('grammar', TO + ' toml, nl_expression'), ('lexical grammar', PR), ('arrays, tables', OB)], ['ParseResult variant and its leftover'])
p('P03', 'Numbers, booleans and dates are read exactly as written',
  'Every integer, float, boolean, date and date-time in a document is recognized by its spelling, gets the type its spelling has in TOML 0.4, and is handed out with precisely the characters, digits, sign, underscores, exponent, fraction and offset it was written with. Spellings that are no TOML value (leading zeros, misplaced underscores, missing digits) are not accepted.',
  ['inputs'], 'all scalar spellings, in every position a value may be in', 'The sets of valid and invalid spellings are infinite; tests have a handful of each.',
  [PR, T], [('integer, float', PR + ' integer, float'), ('boolean', PR + ' boolean'), ('dates and times', PR + ' date_time_internal, time, time_offset')], ['get_value', 'ParseResult'], [MAP])
p('P04', 'A lookup returns the value at the key and nothing for any other key',
  'Looking up the path of a value anywhere in a document (in tables, in elements of arrays of tables, in arrays and inline tables at any depth) returns that value. Looking up anything else, such as a table, a prefix, an index past the end or another spelling of the key, returns nothing, and looking up changes nothing.',
  ['inputs', 'histories'], 'all documents, all keys, after any sets', 'Tests look up selected keys of fixed documents, rarely ones that are absent.',
  [L, PA], [('lookup', PA + ' get_value'), ('indexing values', PA + ' insert_value; ' + OB + ' keys of arrays and inline tables')], ['get_value'], [MAP])
p('P05', 'The children of every key are exactly its own, in document order',
  'For the document, every table and every inline table the children are the keys directly in it, each once, in the order in which they first occur, including sub-tables; for every array and array of tables the children are the number of its elements. Scalars have no children (a count of zero), and keys that are not there have no answer.',
  ['inputs', 'histories'], 'all documents, all keys, after any sets', 'Children are accumulated while reading in an order depending on the whole document; tests check nine small ones.',
  [PA, OB, T], [('lookup', PA + ' get_children'), ('accumulating keys', OB + ' std_table, array_table; ' + PR + ' keyval')], ['get_children'], [MAP])
p('P06', 'Tables and arrays of tables are built by their headers as TOML says',
  'Key/value pairs belong to the table whose header came last, a header of an array of tables adds an element to it, and further headers that go through an array of tables refer to its last element; tables on the way are created implicitly and may be defined later. Headers may come in any order and may be separated by other tables without losing or mixing up anything. (This library deliberately takes no sub-table header below a plain table that directly has values; elements of arrays of tables may have both.)',
  ['inputs'], 'all sequences of headers and key/value pairs', 'The structure depends on the history of all headers before; tests have a few fixed sequences.',
  [OB, PA], [('table headers', OB + ' std_table'), ('headers of arrays of tables', OB + ' array_table'), ('key under which a pair goes', PA + ' insert_value')], ['get_value', 'get_children', 'ParseResult errors'], [MAP, KEYS])
p('P07', 'Duplicate keys and invalid tables are reported; the first definition stays',
  'A key defined a second time in the same table (or inline table) yields one duplicate-key error with that key and the value ignored, and looking the key up still gives the first value. A table header that collides with a value or with a table already defined, or is below a plain table that directly has values, yields one invalid-table error that has the key and the key/value pairs below it, none of which enter the document; nothing else is reported as either.',
  ['inputs'], 'all documents', 'Collisions depend on pairs of arbitrary places in a document.',
  [OB, PA, PR], [('checking headers', OB + ' std_table, array_table'), ('checking keys', PA + ' insert_value'), ('inline tables', OB + ' inline_table')], ['errors in ParseResult', 'get_value'], [MAP, ERRS])
p('P08', 'Mixed arrays and impossible dates are reported where they are, once each',
  'Every array whose direct elements are of different types (all kinds of string being one type) yields exactly one mixed-array error with its key, and every date or time that does not exist yields one invalid-date error with its key and text, however deeply it is nested in a value. Such values can still be looked up, the rest of the document is read as usual, and homogeneous arrays and existing dates yield none.',
  ['inputs'], 'all documents', 'Error state is kept across nested arrays; tests have a few mixed arrays and impossible dates at top level.',
  [OB, PR, T], [('types of elements', OB + ' array_internal, array_value; ' + PR + ' array_error'), ('impossible dates', PR + ' keyval, date_time; ' + T + ' DateTime::validate')], ['errors in ParseResult'], [ERRS, KEYS])
p('P09', 'Reported line numbers are true, and errors are in order',
  'The line a partial parse reports is the line of the first expression that could not be read. The line of each error is one of the lines of the expression it is about, counting LF and CR LF newlines alike, wherever newlines occur: between expressions, in multi-line strings, in arrays, in comments and blank lines. Errors are listed in the order of the expressions they are about (those of one expression in any order).',
  ['inputs'], 'all texts with newlines in any place', 'Each grammar rule that can take a newline counts by itself; tests check lines of few documents.',
  [PR, OB, TO, UT, PA], [('counting', PA + ' line_count; ' + PR + ' multi-line strings; ' + OB + ' comments and newlines in arrays; ' + UT + ' newline')], ['line numbers in ParseResult and its errors'], [('line_count', 'the current line', PA + ' Parser.line_count')])
p('P10', 'A value that was set is what is then looked up, with all of its parts',
  'Setting any valid value, including arrays and inline tables of another shape, for a key that has a value succeeds; looking up the key then returns that value, and looking up any path below it returns its part there (and the children of it), while parts the old value had and the new one has not are gone.',
  ['inputs', 'histories'], 'all documents, keys, values and sequences of sets', 'Tests set about a dozen values once; replacing nested structures and repeated sets rebuild an index they do not look at.',
  [PA, L], [('setting', PA + ' set_value, replace_values, same_structure'), ('index below the key', PA + ' get_all_subkeys')], ['set_value, get_value, get_children'], [MAP, TREE])
p('P11', 'Setting a value changes the text of that value and not a byte elsewhere',
  'After setting a value the displayed document differs from before only in the text of that value. If the new value has the same shape as the old (a scalar for a scalar, an array of as many elements, an inline table of the same keys, recursively), all formatting and comments inside it are kept as well and only scalars change; otherwise it is written in the default formatting.',
  ['inputs', 'histories'], 'all documents, keys, values and sequences of sets', 'The display is kept in a tree separate from what lookups read; tests display after a set in few documents.',
  [PA, ST], [('replacing in place', PA + ' replace_values'), ('writing anew', PA + ' convert_vector, set_value')], ['Display after set_value'], [TREE])
p('P12', 'Setting a value leaves all other keys as they were',
  'After setting a value every lookup and every listing of children of a key that is neither below nor above the key set gives what it gave before. Containers above it keep their own keys and counts and hold the new value in place of the old.',
  ['inputs', 'histories'], 'all documents, keys, values and sequences of sets', 'It is about all other keys, in particular ones with similar names; tests look at the key that was set.',
  [PA], [('subkeys that are replaced', PA + ' set_value, get_all_subkeys')], ['get_value, get_children before and after set_value'], [MAP])
p('P13', 'A set that is refused changes nothing',
  'Setting a key that has no value (one not in the document, a table, an array of tables, an index past the end), or setting an invalid value (at any depth), returns false and leaves display, lookups, children and later sets as if it had not been tried. Setting a valid value where there is one never returns false.',
  ['inputs', 'histories'], 'all documents, keys, valid and invalid values', 'A failure half way through a nested value leaves traces no test looks for.',
  [PA, T], [('refusing', PA + ' set_value'), ('validity', T + ' Value::validate')], ['set_value, then Display, get_value, get_children'], [MAP, TREE])
p('P14', 'What is displayed parses again to the same content, also after sets',
  'After any sequence of sets of values, parsing the displayed text anew gives a document with the same values and children under the same keys as before, displayed as the same text.',
  ['inputs', 'histories'], 'all documents that were fully read, sequences of sets', 'It connects display, parser and sets for all values; tests do not parse what they displayed after a set.',
  [PA, ST, L], [('display', ST), ('setting', PA + ' set_value'), ('parsing', PA + ' parse')], ['Display, parse, get_value, get_children'], [MAP, TREE])
p('P15', 'Value constructors accept exactly what can be written, and keep it',
  'Each constructor of numbers, booleans, strings, dates and date-times succeeds exactly for arguments that spell a valid TOML value of that kind, the value then has precisely what was given (numbers for dates padded with zeros to their width), validates, and displays as the TOML text of it. For everything else it returns an error.',
  ['inputs'], 'all arguments', 'Tests have one or two accepted and refused arguments for each constructor.',
  [T, PR], [('constructors', T + ' impl Value'), ('validation', T + ' Value::validate, Date, Time, TimeOffsetAmount'), ('datetime_parse', T + '; ' + PR)], ['Value constructors, validate, Display'])
p('P16', 'Exactly the dates, times and offsets that exist are valid',
  'A date is accepted as valid exactly if it exists in the Gregorian calendar (year 1 to 9999, month lengths, leap years by the rules of 4, 100 and 400), a time exactly if it is between 00:00:00 and 23:59:59, an offset exactly if between 00:00 and 23:59 with a sign. The same holds however they get in: read from a document, from numbers, strings or one text, or by setting them.',
  ['inputs'], 'all dates, times and offsets', 'Tests have single impossible dates; the rule has many boundaries in each of several code paths.',
  [T, PR], [('Date, Time, TimeOffsetAmount validate_numbers', T), ('reading', PR + ' date_time')], ['constructors', 'errors in ParseResult', 'set_value'])
p('P17', 'The display of a value is TOML text that reads back as the value',
  'Displaying any valid value, nested as it may be, gives text that, put after a key and an equals sign and parsed, is read completely, without error for its spelling, and gives the same value again.',
  ['inputs'], 'all valid values', 'All values, nested arbitrarily; test_value_display has one of each kind.',
  [T, PR, OB], [('Display of Value', T), ('reading', PR + ' val')], ['Display of Value, parse, get_value'])
p('P18', 'What a parser did before does not influence what it parses next',
  'Parsing a text with a parser that has parsed other texts, with or without errors or leftovers, and had values set, gives exactly what a new parser gives: result, errors, lines, lookups, children and display. Nothing of an earlier document remains. A parser that has parsed nothing is like one that has parsed the empty text.',
  ['histories'], 'all sequences of parses, sets and lookups on one parser', 'Tests parse once with each parser.',
  [PA, L], [('state of the parser', PA + ' parse')], ['TOMLParser::parse on a used parser'], [MAP, TREE, ERRS, KEYS])
p('P19', 'No text, key or value makes the library panic or hang',
  'For every text (of nesting that fits the stack), key and value, all operations (parsing, looking up, listing children, setting, displaying, constructing and validating values) return. They neither panic nor run forever, whatever was done before.',
  ['inputs', 'histories'], 'all texts and sequences of operations', 'Panics hide behind unusual inputs: empty containers, absent keys, non-ASCII characters, truncated texts.',
  [L, PA, PR, OB, TO, UT, T, ST], [('unwraps, indices, borrows and arithmetic', PA + ', ' + OB + ', ' + ST)], ['every public operation'])
p('P20', 'Combining keys with children navigates to everything there is',
  'Starting at the document and repeatedly combining a key with its children (by name or index) reaches every table, array, inline table and value of the document exactly once, and each combined key can be looked up. Combining yields key.child, just the child for an empty key, or key[index].',
  ['inputs', 'histories'], 'all documents, keys and children', 'Tests combine keys of fixed strings and do not look up the outcome.',
  [T, PA], [('combining', T + ' combine_keys, combine_keys_index, combine_child_keys'), ('children', PA + ' get_children')], ['combine_keys, combine_keys_index, combine_child_keys', 'get_children, get_value'], [MAP])
p('P21', 'tomlkit prints what was asked of each document, and only reads',
  'For each file given, in order, tomlkit prints on one line the values, children and yes/no answers asked for, joined by the separators and words chosen by options, or an error naming the file; asking changes no file. It exits with failure, doing no more, at a file that is missing, is no text or does not parse completely without errors, and when it was given no command or options it does not know; asked for help it prints that.',
  ['inputs', 'configurations'], 'all documents, keys, options and combinations of commands', 'There are no tests of tomlkit.',
  [KIT], [('commands', KIT + ' process_document, get_value, has_value, get_children, has_children'), ('options', KIT + ' Options::new')], ['output, exit code and files of a run of tomlkit'])
p('P22', 'tomlkit writes a file only after all its sets succeeded, with just those',
  'When every value to be set is of its type, valid, and for a key that has a value, tomlkit writes the document with exactly these changes to the output file if one was given, otherwise to the input file, and says so. If any of them fails, or an earlier command did, or the document does not parse, no file is written or changed; if the file cannot be written it says so and exits with failure.',
  ['inputs', 'configurations'], 'all documents, lists of sets, options', 'There are no tests of tomlkit.',
  [KIT, PA], [('setting', KIT + ' set_value'), ('writing', KIT + ' process_document, write_to_file')], ['output, exit code and files of a run of tomlkit'])
p('P23', 'Formatting and comments do not influence content',
  'Adding or removing blanks, tabs, blank lines, comments and newlines wherever TOML allows them, and choosing LF or CR LF, changes neither values nor children, tables or errors (apart from line numbers). No such formatting prevents the text from being read.',
  ['inputs'], 'all documents in all their formattings', 'Every place formatting may occur is a rule of its own; tests use a few styles.',
  [OB, PR, TO, UT], [('blanks, newlines, comments', UT + ' ws, newline, comment; ' + OB + ' comment_or_nls, array_sep; ' + TO + ' ws_expr')], ['get_value, get_children, errors over formattings of a document'])
p('P24', 'Strings of all four kinds are read exactly as written',
  'Basic, multi-line basic, literal and multi-line literal strings are recognized by their delimiters, may contain every Unicode character TOML allows there (with quotes, escapes, newlines and tabs as TOML says), and are handed out with their kind and exactly the characters between the delimiters. Invalid escapes, control characters, unescaped newlines and missing delimiters are not accepted.',
  ['inputs'], 'all strings', 'Tests have some strings of each kind; ends of strings, quotes within and escapes have many combinations.',
  [PR], [('strings', PR + ' raw_basic_string, raw_ml_basic_string, raw_literal_string, raw_ml_literal_string, string')], ['get_value, ParseResult'])
p('P25', 'Arrays and inline tables contain exactly their items, in order',
  'Arrays and inline tables, nested in each other at will, hold the items written between their brackets, in order, each reachable by its index or key. Items are separated by single commas, the last may be followed by one, arrays may span lines with comments, and an unclosed bracket, missing comma or missing value is not accepted.',
  ['inputs'], 'all arrays and inline tables', 'Nesting, emptiness, trailing commas and newlines combine without bound.',
  [OB, PR], [('arrays', OB + ' array_internal, array_values, array_value'), ('inline tables', OB + ' inline_table, table_keyval')], ['get_value, get_children, ParseResult'], [MAP])
p('P26', 'Keys are what is written: bare or quoted, and distinct if spelled differently',
  'A key is a non-empty run of ASCII letters, digits, dashes and underscores or a non-empty basic string in quotes, and names its entry exactly as written, quotes included; blanks around keys and around dots in headers do not count. Keys that differ in any character are different keys, and anything else is not accepted as key.',
  ['inputs'], 'all keys of pairs, headers and inline tables', 'All spellings of keys in three positions each; tests use few quoted keys.',
  [PR, OB], [('keys', PR + ' key, unquoted_key, quoted_key'), ('header keys', OB + ' table_subkeys, std_table, array_table')], ['get_value, get_children, ParseResult'], [MAP])
p('P27', 'Parts of dates and times stand for exactly what their fields say',
  'Dates, times, offsets, amounts of offset and date-times can be built by themselves. From strings they are made exactly if the fields are digits of their width, an existing date, a time of day and an offset of a sign, hours and minutes; otherwise it is an error. Parts built of any fields validate exactly if that holds, and display as precisely their fields with the punctuation TOML puts between them.',
  ['inputs'], 'all fields', 'Tests validate a few parts with one wrong field each; fields combine, and each type has checks of its own.',
  [T], [('from_str and validate of Date, Time, TimeOffset, TimeOffsetAmount, DateTime', T), ('Display of them', T)], ['from_str, validate, Display of Date, Time, TimeOffset, TimeOffsetAmount, DateTime'])
p('P28', 'Values are equal exactly if they are the same',
  'Two values compare equal exactly if they are of the same type and kind (also of string) and have the same content, spelling included, at every depth and in the same order. Comparing is symmetric, copies are equal to their originals, and what two keys of a document give compares equal exactly if it is the same. Children compare equal exactly if they are the same count or the same keys.',
  ['inputs'], 'all pairs of values, all pairs of keys of all documents', 'Tests use equality for all they check but never test it: one that is too generous hides other failures.',
  [T, PA], [('PartialEq of Value, DateTime and its parts, Children', T), ('handing out copies', PA + ' get_value')], ['== of Value and Children, clone'], [MAP])
p('P29', 'Parsers do not influence each other, nor what has been handed out',
  'What one parser does has no influence on another: with two parsers used in turns each gives exactly what it gives when used alone. Values, children and results that have been handed out stay as they are, whatever the parser does afterwards: sets, parses of other texts, and being dropped.',
  ['histories'], 'all interleavings of operations on two parsers and of keeping and looking again at what they gave', 'Tests use one parser each and what it hands out at once.',
  [PA, L, T, ST], [('shared cells', ST + '; ' + T + ' Children'), ('handing out', PA + ' get_value, parse')], ['get_value, get_children, ParseResult looked at later'], [MAP, TREE, ERRS])
with open(OUT, 'w') as f:
    for r in rows:
        assert len(r['title']) <= 80, r['id']
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
print(len(rows))
