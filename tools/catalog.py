"""The properties. tools/gen_docs.py derives properties.jsonl and MANIFEST.json from this."""
D, DD, T, M, B, J, F, X, U = (
    'src/csvw/dsv.py', 'src/csvw/dsv_dialects.py', 'src/csvw/datatypes.py', 'src/csvw/metadata.py',
    'src/csvw/db.py', 'src/csvw/jsonld.py', 'src/csvw/frictionless.py', 'src/csvw/__main__.py',
    'src/csvw/utils.py')
P = {}


def prop(pid, title, statement, over, quant, why, files, mech, note, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, note=note, observe=list(observe))


prop('D01', 'CSV written by the library reads back cell for cell',
     'For every list of rows of text cells and every supported combination of delimiter, quote '
     'character, quoting, line terminator and encoding, the text produced by the CSV writer is '
     'well-formed (an independent parser recovers the same cells) and the reader returns exactly the '
     'rows that were written, whether the data went through a path, a file object, a list of lines or '
     'memory. Only encoding errors may be reported, and no cell is ever altered, merged, split or lost.',
     ['inputs', 'configurations'], 'all rows of cells x all dialects',
     'Tests write a handful of rows with two or three dialects; quoting bugs need particular '
     'combinations of characters and dialect.',
     [D, DD], ['UnicodeWriter/UnicodeReader', 'Dialect.as_python_formatting_parameters'],
     'independent RFC 4180 style parser/printer as oracle')
prop('D02', 'Dialect flags select and transform rows exactly as specified',
     'For every CSV text and dialect, reading yields exactly the rows which the dialect\'s skipRows, '
     'commentPrefix, skipBlankRows, skipColumns, trim and skipInitialSpace flags leave over, with the '
     'cell transformations these flags specify, and comments collects exactly the comment lines and '
     'non-blank skipped rows in order. Updating a dialect gives a new dialect with only the named '
     'settings changed and leaves the original as it was.',
     ['inputs', 'configurations'], 'all texts x all dialect flag combinations',
     'Tests exercise single flags on fixture files; interactions are combinatorial.',
     [D, DD], ['UnicodeReader.__next__', 'Dialect'],
     'reference interpreter of the dialect flags over independently parsed rows')
prop('D03', 'Reported line numbers are the source line of each row',
     'The line number reported with a row is the 1-based number of the physical line of the input on '
     'which the row ends (for a single-line row: the line it is on), in the line-number-aware reader '
     'and when iterating over tables with metadata. Comments, blank lines, skipped rows and '
     'multi-line cells - dropped or kept - never shift the numbers of the rows after them.',
     ['inputs', 'configurations'], 'all texts with multi-line cells, comments, blank lines',
     'Tests check the numbers of one fixture.',
     [D], ['UnicodeReader._next_row', 'UnicodeReaderWithLineNumber'],
     'independent line accounting over generated texts')
prop('D04', 'Dict and namedtuple readers are faithful views of the rows',
     'Dict readers pair each cell with the header (or given field name) at its position, put surplus '
     'cells under restkey and fill missing ones with restval; namedtuple readers give the same values '
     'under normalized attribute names, and iterrows is equivalent to the reader class it selects. '
     'Every produced row corresponds to exactly one non-blank data row, in order.',
     ['inputs', 'configurations'], 'all headers, ragged rows and reader configurations',
     'Tests read rectangular fixture data.',
     [D, U], ['UnicodeDictReader.item', 'NamedTupleReader.item', 'normalize_name'],
     'list model of the pairing')
prop('D05', 'In-place edits of CSV files apply exactly, or not at all',
     'Rewriting, filtering or appending to a CSV file leaves exactly the rows the visitor, filter or '
     'arguments specify, with every other row unchanged, and reports the number of removed rows. If '
     'the visitor fails, or a row cannot be read or encoded, the original file keeps its content, '
     'the error surfaces, and no temporary file stays behind.',
     ['inputs', 'fault_sequences', 'crash_points'], 'all files, edits, and a failure at every row',
     'Tests rewrite one file and never fail in the middle.',
     [D], ['rewrite', 'filter_rows_as_dict', 'add_rows'],
     'fault injection at every row index; file system compared with a list model')
prop('T01', 'Typed values survive formatting and reading',
     'For every built-in datatype and every value of its value space, the text the library writes is '
     'in the lexical space of the datatype, denotes that value, and reads back as an equal value of '
     'the same Python type. This holds for extreme magnitudes, special floats, time zones, '
     'fractional seconds, empty binaries and arbitrary text alike.',
     ['inputs'], 'all values of all datatypes',
     'Tests sample one or two values per type.',
     [T, M], ['to_python/to_string of each datatype', 'Datatype.read/formatted'],
     'independent lexical rules and interpretations per datatype')
prop('T02', 'Numeric lexical spaces and integer ranges are exact',
     'A text is accepted as a decimal, a floating point number or as one of the integer types, iff it is in the lexical space '
     'the type documents and, for ranged integer types, within the range of the type; the resulting '
     'value is the exact number the digits denote. Everything else raises ValueError.',
     ['inputs'], 'all texts x all numeric datatypes',
     'Tests check a few accepted and rejected strings.',
     [T], ['decimal.to_python', 'integer.to_python', 'range'],
     'independent regular expressions and ranges; mutated numerals, boundary numbers, non-ASCII digits')
prop('T03', 'Bounds and lengths are enforced exactly',
     'A value is accepted iff it satisfies every minimum, maximum, minInclusive, maxInclusive, '
     'minExclusive, maxExclusive, length, minLength and maxLength of its datatype; lengths count '
     'characters of strings and URIs and bytes of binaries. Values at the bound, values not '
     'comparable with it, bounds and lengths of zero, and elements of list cells follow the same rule.',
     ['inputs', 'configurations'], 'all values x all constraint combinations',
     'Tests use a few bounds on integers and strings.',
     [M, T], ['Datatype._validate', 'Datatype.__attrs_post_init__'],
     'independent comparison; workload concentrated at the bounds')
prop('T04', 'Date and time formats mean what their pattern says',
     'For every supported date/time pattern (with fractions of seconds and timezone markers), writing a '
     'value yields the text the pattern specifies and reading that text yields the value with its '
     'timezone. A text that does not match the pattern completely, or denotes an impossible date or '
     'time, raises ValueError. Nothing depends on the locale or timezone of the process.',
     ['inputs', 'configurations'], 'all patterns x values x mutated texts',
     'Tests check a dozen pattern/value pairs of several thousand.',
     [T], ['dt_format_and_regex', 'date/time to_python/to_string'],
     'independent renderer and grammar of the date/time patterns')
prop('T05', 'Number formats mean what their pattern and characters say',
     'For numeric datatypes with a pattern, groupChar or decimalChar, a number is written with exactly '
     'the grouping, decimal character and numbers of digits the format specifies (rounding half to '
     'even), and reading the text gives that number back. Texts with repeated group characters, wrong '
     'group sizes, or too few or too many digits raise ValueError.',
     ['inputs', 'configurations'], 'all numbers x number formats',
     'Tests check a few numbers for a few patterns.',
     [T, M], ['NumberPattern', 'decimal/_float to_python and to_string'],
     'independent renderer of number patterns; values at rounding and grouping boundaries')
prop('T06', 'Contradictory datatype descriptions are rejected, others kept',
     'A datatype description raises ValueError iff its lengths or bounds contradict each other (also '
     'when zero, equal or given via the minimum/maximum aliases), are not comparable or no values of '
     'the datatype, do not apply to the base datatype, or its @id is that of a built-in datatype. Every '
     'other description keeps all of its constraints and is serialized to an equal description.',
     ['inputs', 'configurations'], 'all combinations of constraints x base types',
     'Tests check some contradictory pairs.',
     [M], ['Datatype.__attrs_post_init__', 'Datatype.asdict'],
     'independent consistency rule over generated descriptions')
prop('T07', 'Reading any text as any datatype gives a value or ValueError',
     'Whatever the text, reading it as any datatype with any valid format and constraints returns a '
     'value of the Python type documented for the datatype or raises ValueError, and does so again when '
     'repeated. No other exception escapes.',
     ['inputs', 'configurations'], 'all texts x datatypes x formats',
     'Tests use well-formed or mildly wrong texts.',
     [T, M], ['to_python of each datatype', 'Datatype.read'],
     'exception-type and value-type monitor over hostile texts')
prop('T08', 'Lexical spaces of strings, tokens, binaries, JSON, durations are exact',
     'A text is accepted for string types with a regular expression iff the whole text matches, for '
     'NMTOKEN iff it consists of name characters, for booleans iff it is one of the specified '
     'spellings, for binary types iff it is well-formed, for JSON iff it parses and satisfies the '
     'schema, and for durations iff it is well-formed and matches the format. Accepted texts denote the '
     'obvious value; normalizedString replaces and trims whitespace.',
     ['inputs', 'configurations'], 'all texts x formats',
     'Tests check a few formats without near misses.',
     [T], ['string.to_python', 'boolean', 'hexBinary/base64Binary', 'json', 'duration', 'normalizedString'],
     'independent decision procedures per type; near misses and trailing newlines')
prop('C01', 'Cells are parsed by null, default, required, separator and datatype',
     'For every table description and every text in a cell, reading applies default, required, separator, '
     'null and datatype as the most specific of column, schema, table and table group specifies them: the '
     'result is the typed value, None, or the list of elements they prescribe. ValueError is raised iff a '
     'required value is missing or a value is not in the lexical space of its datatype.',
     ['inputs', 'configurations'], 'all texts x property combinations x levels of specification',
     'Tests specify one property at the column level at a time.',
     [M], ['Column.read', 'Description.inherit', 'Description.inherit_null'],
     'independent model of cell parsing, run against Column.read and whole files')
prop('C02', 'Typed rows written with Table.write read back equal',
     'Rows of typed values - dicts in any key order, lists or tuples, with None, missing keys and list values - '
     'which are written with Table.write appear in the CSV data exactly as the table description (column order, '
     'header, null marker, separator, datatype, dialect) prescribes, and reading the table gives equal typed '
     'rows under the column names. The row count is returned, fields without a non-virtual column are rejected in '
     'strict mode and ignored otherwise, and no other file is written.',
     ['inputs', 'configurations'], 'all rows x table descriptions x dialects x targets',
     'Tests write a few rows for a few descriptions.',
     [M, D], ['Table.write', 'Column.write', 'Table.iterdicts'],
     'written text parsed independently, compared cell by cell, then read back')
prop('C03', 'CSV columns are matched to the described columns',
     'With a header, each CSV column is read as the column whose name, title or property URL is its label, '
     'whatever the order; columns not described are kept as text (with a warning), described columns which are '
     'absent and missing cells give None, and an absent required column raises ValueError. Without header, or '
     'in non-strict mode, columns match by position; virtual columns get their expanded value URL.',
     ['inputs', 'configurations'], 'all column descriptions x CSV headers x ragged rows',
     'Tests read files whose header equals the description.',
     [M], ['Table.iterdicts', 'Schema.get_column'],
     'independent matching model over permuted, partial and surplus columns')
prop('C04', 'Invalid data is reported once, where it is, and only it is withheld',
     'When iterating over a table with a logger, every invalid or missing required value is reported exactly '
     'once with file, line, column number and column label, and exactly the rows without such values are '
     'yielded. Without a logger the first of them raises ValueError with this location after all preceding rows '
     'were yielded; in non-strict mode all rows are yielded, the invalid values as text and with a warning.',
     ['inputs', 'configurations'], 'all placements of invalid values in files of any layout',
     'Tests check the message for one bad cell.',
     [M, D], ['Table.iterdicts', 'log_or_raise', 'UnicodeReaderWithLineNumber'],
     'independent validity model and line accounting')
prop('C05', 'Primary key check finds exactly the duplicate keys',
     'The primary key check succeeds iff no two valid rows of the table have equal typed values in all primary '
     'key columns, whatever the lexical forms, the distance between the rows, or whether values are lists or '
     'null. Each later occurrence is reported with its line to the logger; without logger the first raises '
     'ValueError.',
     ['inputs'], 'all tables x primary keys',
     'Tests contain one pair of adjacent duplicates.',
     [M], ['Table.check_primary_key'],
     'set of independently parsed keys; planted duplicates and near misses')
prop('C06', 'Referential integrity check finds exactly the dangling references',
     'For every group of tables, the check succeeds iff each non-null foreign key (for list-valued columns each '
     'element, for composite keys the tuple without null component) equals a key in the referenced columns, '
     'and each dangling reference is reported with its file and line. Strict mode additionally rejects null '
     'foreign keys and non-unique referenced keys; foreign keys which refer to unknown tables or columns, or '
     'do not match in number or datatype, are reported as errors.',
     ['inputs', 'configurations'], 'all table groups x foreign keys x rows',
     'Tests check one dangling reference for one schema.',
     [M], ['TableGroup.check_referential_integrity', 'TableGroup.validate_schema', 'TableGroup.foreign_keys'],
     'independent join over parsed rows; planted dangling, null and partial references')
prop('C07', 'The storage of the data does not change what is read',
     'Local files, zip archives next to the described location, HTTP resources, file-like objects and lists of '
     'lines with the same content yield the same typed rows with the same line numbers, reports, comments and '
     'integrity verdicts, for every dialect and encoding. An existing file takes precedence over its zip '
     'archive, and data that cannot be retrieved raises an error rather than giving rows.',
     ['inputs', 'configurations'], 'all data x dialects x storages',
     'Tests read UTF-8 data without byte order mark from local files.',
     [M, D], ['Table.iterdicts', 'TableLike.base', 'Link.resolve'],
     'five storages compared with one independent model; recorded HTTP layer')
prop('C08', 'Table groups survive writing and copying',
     'After TableGroup.write, the metadata file describes an equal table group whose tables contain equal rows. '
     'After TableGroup.copy, the destination contains the metadata and the same data files (zipped or not, also '
     'in sub-directories), the group refers to the copies, and the source files are unchanged - also by later '
     'writes through the group.',
     ['inputs', 'histories'], 'all table groups x write/copy sequences',
     'Tests copy one flat group.',
     [M], ['TableGroup.write', 'TableGroup.copy', 'TableLike.to_file'],
     'file system and rows compared before and after each step')
prop('C09', 'Changing a description has the effect of specifying it differently',
     'After any sequence of changes to a table group through its public attributes and methods - adding, removing, '
     'renaming or reordering columns, setting or resetting inherited properties at any level, datatypes and their facets, '
     'titles, keys, foreign keys, dialects and their properties, tables, URLs, common properties, the location of the '
     'metadata - interleaved with uses of the group, reading, writing, validating, serializing and converting behave '
     'like for a group loaded from a document with these changes, and that is what is saved.',
     ['inputs', 'histories'], 'all sequences of changes and uses',
     'Tests change one column or add one foreign key before the first use.',
     [M, D], ['Table.add_foreign_key', 'Schema.columndict', 'Description.inherit', 'Dialect.updated', 'TableLike.base', 'NaturalLanguage.add'],
     'differential monitor: changed object against object loaded from the changed document, after each change')
prop('M01', 'Metadata survives serialization and loading unchanged',
     'For every valid description of a table or table group, loading it gives no warnings, and serializing it - '
     'with or without defaults - and loading the result gives an equal object; serializing that again gives the '
     'same JSON. With defaults omitted the JSON has exactly the properties which were specified (common, @ and '
     'inherited ones at every level included), with equivalent values.',
     ['inputs'], 'all metadata documents',
     'Tests round-trip a few fixture files.',
     [M, DD, U], ['DescriptionBase.asdict', 'TableLike.to_file', 'utils.attr_asdict'],
     'generated documents normalized independently, compared after each step')
prop('M02', 'Inherited properties take the value of the most specific level',
     'The effective value of each inherited property at a column, schema, table or group is the one specified at '
     'the most specific level which specifies it, false values included, else the default; the dialect is that of '
     'the table, else of the group, else the default. Relative locations are resolved against the location of the '
     'metadata (adjusted by @base), and sibling tables or columns never influence each other.',
     ['inputs', 'configurations'], 'all distributions of properties over levels',
     'Tests check inheritance for one or two properties.',
     [M], ['Description.inherit', 'Description.inherit_null', 'Table._get_dialect', 'TableLike.base'],
     'independent resolution over generated level assignments')
prop('M03', 'Invalid metadata is ignored with a warning or rejected, never a crash',
     'An invalid value of a metadata property that has a default (unknown properties, list entries of the wrong '
     'type, invalid language tags) leads to a warning and to the same object as without it; documents which the '
     'specification forbids raise ValueError. For every JSON document, loading gives ValueError or an object which '
     'serializes to JSON that reloads to the same JSON, and with which reading, key and integrity checks raise '
     'nothing but ValueError or errors retrieving or parsing the CSV data.',
     ['inputs'], 'all JSON documents in place of metadata',
     'Tests check a dozen invalid values.',
     [M, DD, U], ['DescriptionBase.partition_properties', 'utils.converter', 'Schema.fromvalue', 'converter_tables'],
     'catalogue of invalid values compared with the document without them; structural fuzzing')
prop('M04', 'URI templates and links expand to the right URLs',
     'For every URI template property, row and table, expansion gives what RFC 6570 specifies for the canonical '
     'texts of the row\'s values (None being undefined) and the row number and column name, with QNames expanded '
     'by their prefix and other references resolved against the location of the table; on request only a leading '
     'known namespace is compacted to its prefix. Virtual columns contain the expanded template; links resolve '
     'against URLs as RFC 3986 says and against paths as relative paths.',
     ['inputs', 'configurations'], 'all templates x rows x locations',
     'Tests expand two templates.',
     [M], ['TableLike.expand', 'Link.resolve', 'Table.iterdicts'],
     'independent implementations of RFC 6570 and RFC 3986')
prop('M05', 'Markdown documentation covers the metadata completely and correctly',
     'For every table group, the rendered markdown has one section per table and in it one row of three cells per '
     'column, in order, stating name, effective datatype with choices, bounds and separator, description and the '
     'role as primary or foreign key, and it contains the common properties and dialects. Links refer to sections '
     'or existing files, and rendering neither fails nor changes the metadata; csvw2markdown prints it.',
     ['inputs'], 'all table groups',
     'Tests look for one line of the output.',
     [U, X], ['metadata2markdown', 'csvw2markdown'],
     'parsed markdown compared with the document')
prop('J01', 'The JSON conversion states exactly the content of the tables',
     'In standard mode, conversion to JSON gives for each table and row not suppressed its URL, row number, row '
     'titles, comments, notes and annotations and an object with one member per cell that is neither null, empty '
     'nor suppressed: keyed by its compacted property URL or name (values of a repeated property as one flat '
     'array), valued by its value URL or its value in the JSON type of its datatype. In minimal mode these objects '
     'alone, in order, are given; the result is plain JSON data, the same on each call, and what csvw2json prints.',
     ['inputs', 'configurations'], 'all described tables x storages x modes',
     'Tests convert a few fixture tables.',
     [M, J, X], ['CSVW.to_json', 'jsonld.Triple.from_col', 'jsonld.group_triples', 'jsonld.format_value'],
     'independent conversion model')
prop('J02', 'Rows describing several objects convert to exactly their statements',
     'If columns have their own subject URLs, the objects given for a row in JSON - nested where exactly one '
     'statement refers to an object - contain exactly the statements (subject, property, value) made by its cells and virtual columns, '
     'single values not as arrays unless from lists, for any references between the objects including shared, circular and self references. Each subject is '
     'defined exactly once, and the subject of the row comes first.',
     ['inputs'], 'all tables with subject URLs per column',
     'Tests convert one or two such tables.',
     [J, M], ['jsonld.group_triples', 'jsonld.frame', 'CSVW._describes'],
     'output flattened to a set of statements and compared with a model')
prop('V01', 'Validation finds data valid iff it has none of the detectable problems',
     'A described table or group of tables is found valid - by CSVW.is_valid and by csvwvalidate (OK, exit code 0) - '
     'iff its metadata gives no warning or error, its data can be read, has no surplus column, and violates no '
     'datatype, required, primary key or foreign key constraint (null foreign keys and non-unique referenced keys '
     'included). Otherwise csvwvalidate prints FAIL and exits with 1 or 2, never crashing. The verdict is stable, '
     'and depends neither on where the data is stored nor on the warning filters of the process.',
     ['inputs', 'configurations'], 'all described data x storages x warning filters',
     'Tests validate three fixture files.',
     [M, X], ['CSVW.is_valid', 'CSVW.__init__', 'csvwvalidate'],
     'valid groups and the same groups with a planted problem')
prop('L01', 'Metadata is located in the specified order, and only if it describes the data',
     'For CSV data on the web without overriding metadata, the description used is the first which is valid JSON and '
     'references the data among: the one linked by a describedby header with a JSON type, those at the site-wide '
     'configured locations or, without such configuration, the two default locations; later locations are not '
     'requested, and ignored descriptions give a warning. Without description all cells are text labeled by the '
     'header (none if the content type says so); for local data only <file>-metadata.json is considered, and links '
     'in a description are resolved against its own location.',
     ['inputs', 'configurations', 'histories'], 'all responses of a web site, all directories',
     'Tests locate metadata at two locations.',
     [M], ['CSVW.locate_metadata', 'CSVW.__init__', 'TableLike.from_url', 'get_json'],
     'recorded HTTP history and rows compared with a model of the site')
prop('B01', 'Tables written to a database read back unchanged',
     'For every group of tables with rows of typed values satisfying its constraints, writing it to an SQLite '
     'database - in memory or in a file, from CSV files or from rows - and reading it back, with the same or another '
     'Database object, gives the same rows, equal in value and type, in order (rows with a single integer primary key '
     'may come in the order of the key). This includes lists, null values, list-valued foreign keys with order and '
     'repetitions, any order of the keys in the rows, and translated table and column names.',
     ['inputs', 'configurations'], 'all table groups x rows x storages x name translations',
     'Tests write one fixture with a few rows.',
     [B, T], ['Database.write', 'Database.read', 'Database.association_table_context', 'SQLITE_TYPE_MAP', 'insert'],
     'rows compared with what was written; sqlite3 itself checks integrity and foreign keys of the file')
prop('B02', 'The database accepts exactly the data satisfying the constraints',
     'Rows which satisfy the described constraints are accepted by the database; rows with a duplicate primary key, a '
     'dangling (scalar, composite, list-valued or self-) reference, a null value in a required column, or a value '
     'beyond an inclusive minimum or maximum or length of its datatype are refused with an IntegrityError, '
     'and also by the schema of the database when another program inserts them.',
     ['inputs'], 'all table groups x constraint x violating or satisfying values',
     'Tests violate two constraints of one fixture.',
     [B, T], ['TableSpec.sql', 'ColSpec.check', 'ColSpec.sql', 'Database._connection'],
     'planted violations and their boundary neighbours; verdict of sqlite3 compared with the plan')
prop('B03', 'Writing to a database is all or nothing',
     'If writing to a database fails at any point - a violated constraint, a value which cannot be converted, a '
     'failing source of rows, an interrupt, the death of the process - the database contains nothing of what was being '
     'written and everything written successfully before. An existing file is replaced only on request, and refused with '
     'an error and left unchanged otherwise.',
     ['inputs', 'fault_sequences', 'crash_points', 'histories'], 'all sequences of writes with a fault at any point',
     'Tests write successfully or fail once in memory.',
     [B], ['Database.write', 'insert', 'Database.__init__'],
     'fault injection, including killing the writing process; content compared with a model after each step')
prop('B04', 'The schema of the database is the one described',
     'For every group of tables whose references are acyclic (self-references aside), the created database has, '
     'whatever the order of declaration and the names, exactly the described tables with their columns in order, '
     'types, NOT NULL flags, primary keys and foreign keys under the translated names, plus one association '
     'table per list-valued foreign key. Cyclic references are reported as ValueError before anything is created.',
     ['inputs', 'configurations'], 'all table groups x declaration orders x name translations',
     'Tests create two databases.',
     [B], ['schema', 'TableSpec.from_table_metadata', 'TableSpec.sql', 'quoted'],
     "sqlite3's own catalogue compared with the description")
prop('H01', 'Operations leave no trace in later ones',
     'The outcome of reading, iterating (also partially or interleaved), serializing, validating, converting or '
     'expanding - result, warnings or exception - depends only on the description and the data at that time, not on which '
     'operations were run before on the same object, successful or failing. Objects and documents passed in, the files '
     'read, and the state of the process (warning filters, working directory, decimal context, csv settings, '
     'environment) stay as they were.',
     ['inputs', 'histories'], 'all sequences of operations on all objects',
     'Tests run one or two operations per object.',
     [M, J, U, B], ['CSVW.to_json', 'CSVW.is_valid', 'TableGroup.fromvalue', 'Table.iterdicts', 'DescriptionBase.fromvalue'],
     'differential monitor: shared object against fresh object per operation, snapshots of inputs, files and process state')
prop('F01', 'Frictionless data packages convert to tables with the same content',
     'For every data package, given as path, text or object, conversion gives one table per tabular CSV resource, in order, '
     'which reads - also after saving the CSVW metadata - the typed values which the field types, missing values and dialect of the '
     'resource specify, and which is found invalid iff a type, required, length, pattern, bound, primary key or foreign '
     'key constraint of the package is violated. Titles, descriptions and package metadata are kept, and references to '
     'unknown resources are reported as ValueError.',
     ['inputs', 'configurations'], 'all data packages x data',
     'Tests convert one fixture and three constraints.',
     [F, M], ['convert_column_spec', 'convert_table_schema', 'convert_foreignKey', 'convert_dialect', 'DataPackage.to_tablegroup'],
     'data generated along with the package, planted violations; workload cross-checked with the frictionless library')
prop('X01', 'The command line tools do what the API does, and report failures',
     'csvw2sqlite and csvw2datasette write a database with exactly the rows of the data they are given by path or URL, '
     'the former replacing an existing file, the latter refusing to, and the latter also the metadata of the dataset, and for CSV '
     'without metadata, too. csvwdescribe prints for all of the given files, whatever their names and delimiter, a '
     'description with which exactly their cells are read; csvw2json, csvw2markdown and csvwvalidate print what the API '
     'gives, the latter with the reasons if asked to. Missing input or existing files lead to a non-zero '
     'exit code and no change of files.',
     ['inputs', 'configurations'], 'all data x command lines',
     'Tests run each command once.',
     [X, B, F], ['csvw2sqlite', 'csvw2datasette', 'csvwdescribe'],
     'databases and descriptions written by the commands compared with the data')
prop('H02', 'Operations touch only the files they are about, and release all resources',
     'Reading, checking, validating and converting local data opens no files but the metadata and data in question, for '
     'reading only, and neither contacts hosts nor starts processes; writing operations create or change exactly the files '
     'they are asked to. When an operation returns, fails or is abandoned half way, all files, archives and '
     'database connections it opened are closed and no temporary file is left.',
     ['inputs', 'fault_sequences'], 'all operations x data, also missing, damaged or unwritable data',
     'Tests look at results, not at effects.',
     [M, D, B, X], ['Table.iterdicts', 'Table.write', 'rewrite', 'Database.connection', 'TableGroup.copy'],
     'audit hook recording all file, network and process events; descriptors, temporary files and listings compared')
prop('H03', 'Concurrent reading in threads gives the same as reading alone',
     'Threads reading, parsing, checking, serializing, converting or loading data into databases at the same time - with '
     'their own objects or sharing one table group - each get the outcome, result or exception, '
     'which the operation has when run alone, however the threads are interleaved.',
     ['schedules', 'inputs'], 'all interleavings of reading operations',
     'Tests are single-threaded.',
     [M, T, D, B, J], ['Table.iterdicts', 'Datatype.read', 'Datatype.formatted', 'UnicodeReader'],
     'threads with injected yields; outcomes compared with sequential ones, switches within library code counted')
