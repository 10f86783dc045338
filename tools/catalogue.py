I, H, S, CR, F, CF = 'inputs', 'histories', 'schedules', 'crash_points', 'fault_sequences', 'configurations'

prop('C01', 'A container file built from any folder unpacks to the same files',
     'Building a container file from a folder of entries and unpacking that file gives back exactly the same entry names with '
     'byte-identical contents, for any number of entries, any file names and any sizes including empty and multi-chunk ones. '
     'Whatever the target folder held before, afterwards it holds exactly the entries.',
     [I], 'all entry counts (around every table-of-contents block boundary), names and contents of any length within the bounds',
     'The tests only unpack a few fixed vendor files and never build a container and read it back; sizes around the chunk, block and '
     'table-of-contents limits are never met.',
     ['container.py', 'container_doc.py', 'container_reader.py', 'container_writer.py'],
     [('table of contents in blocks', 'container.py'), ('block writer and reader', 'container_doc.py'),
      ('extract / build', 'container_reader.py, container_writer.py')])
prop('C02', 'Files made of two containers (32-bit then 64-bit) survive build and unpack',
     'A product folder with two containers is written as a 32-bit container followed by a 64-bit one in the same file, and unpacking '
     'that file yields both containers, each with exactly its entries and contents. Every offset stored in the second container is '
     'relative to its own start.',
     [I], 'any entries and contents in both containers within the bounds; first container up to 42 entries',
     'No test builds a two-container file; the 64-bit layout is only ever read from one fixture.',
     ['container.py', 'container_doc.py', 'container_reader.py', 'container_writer.py'],
     [('second container offset', 'container_writer.py'), ('container size used to find the next one', 'container.py, container_doc.py'),
      ('64-bit layout constants', 'container.py')])
prop('C03', 'Any well-formed container layout is read correctly, fragmented documents too',
     'A container laid out as the format allows - documents and the table of contents cut into any number of blocks placed in any order, '
     'blocks larger than their payload, hexadecimal fields in either letter case, any time stamps, garbage after the entry name - is read '
     'with the right names, the right sizes and exactly the right bytes, in the 32-bit and in the 64-bit format.',
     [I], 'every split of documents into blocks, every placement order, every block slack, time stamp and trailing garbage within the bounds',
     'Fixtures contain the layouts one platform version happened to write; a wrong chain length, offset or remaining-bytes count shows only '
     'on layouts that are not in the repository.',
     ['container.py', 'container_doc.py', 'container_reader.py'],
     [('block chain reading', 'container_doc.py'), ('header fields, entry names, time stamps', 'container.py'),
      ('format detection', 'container_reader.py')])
prop('C04', 'Compressing and inflating entries is lossless, nested containers included',
     'Packing a folder into compressed entries and inflating it again restores every file byte for byte, and a subfolder - packed as a '
     'nested container, to any depth - comes back as the same subfolder. The result does not depend on how the compressed stream is cut '
     'into read chunks.',
     [I, S], 'every content, every compressed length and every split of the inflated stream within the bounds',
     'The encode test of this stage only checks that one fixture is processed; chunk boundaries and nested folders built from scratch are '
     'not compared with the input.',
     ['container.py', 'container_doc.py', 'container_reader.py', 'container_writer.py'],
     [('inflate loop', 'container_reader.py'), ('compress loop', 'container_doc.py'), ('nested container', 'container.py')])
prop('C05', 'A truncated container is never unpacked into wrong data without an error',
     'If a container file is cut short at any byte, unpacking it either reports an error or produces exactly the original entries '
     '(when only padding was lost). Shortened, zero-filled or missing entries are never delivered as a success.',
     [F, I], 'every cut position of one- and two-entry containers and of a document chained over two blocks, any contents within the bounds',
     'No test reads a damaged file.',
     ['container.py', 'container_doc.py', 'container_reader.py'],
     [('short reads and incomplete chains', 'container_doc.py'), ('header reading', 'container.py')])
prop('C06', 'Unpacking never writes outside the target folder, whatever the entry names',
     'However the names of the entries of a container (or of a container nested in it) are chosen, unpacking creates, changes or deletes '
     'nothing outside the folder that container is unpacked to: a name that is not a plain file name leads to an error.',
     [I], 'every entry name up to the length bound, top level and nested, direct unpacking and the inflating stage',
     'No test has a hostile entry name.',
     ['container.py', 'container_reader.py'],
     [('entry extraction', 'container.py'), ('nested extraction', 'container.py, container_reader.py')])
prop('C07', 'The digest list of a built configuration matches its stored entries',
     'When a configuration is packed, its information entry receives, in place of the marker, the number of entries and for each entry in '
     'name order its name and the base64 SHA-1 of exactly the bytes stored for it; everything around the marker is kept and all entries '
     'still inflate to their sources.',
     [I], 'any entry contents within the bounds', 'No test looks at the digests.',
     ['container_writer.py'], [('digest list', 'container_writer.py')])

prop('C10', 'Any brace file parses to exactly the nested lists it denotes',
     'Reading a 1C brace file yields the lists it spells: quoted strings keep embedded quotes, commas, braces and line breaks, atoms and '
     'wrapped base64 values keep every character, nesting is preserved, and neither the placement of line breaks between values, the line '
     'end convention nor a byte order mark changes the result.',
     [I], 'every list shape, value and line break placement within the bounds',
     'The tests parse a handful of fixed texts; which characters next to which separator go wrong cannot be enumerated by samples.',
     ['json_container_decoder.py', 'helper.py'], [('line-wise parser', 'json_container_decoder.py'), ('brace_file_read', 'helper.py')])
prop('C11', 'Nested lists written as a brace file read back as the same lists',
     'What the serialiser writes, the parser reads as exactly the same lists: text with quotes and line breaks and long values of any kind, '
     'base64 or not, are all kept character for character.',
     [I], 'every list shape, text value and value length around the wrapping width within the bounds',
     'A wrapped or re-quoted value that changes one character only shows for particular lengths and contents.',
     ['json_container_decoder.py', 'helper.py'], [('raw_data_to_string, add_base64', 'json_container_decoder.py'), ('brace_file_write', 'helper.py')])
prop('C12', 'Converting raw files to JSON and back restores every file of the folder',
     'Decoding a raw container folder to JSON, text and binary files and encoding it again gives the same folder: no file lost, renamed or '
     'duplicated, binary files byte for byte, text and brace files with the same text (up to byte order mark and line end convention), '
     'whatever their bytes and encoding and in whatever order the files are processed.',
     [I, S], 'every file content within the bounds, several files in every processing order',
     'The fixtures hold the file kinds some configurations happened to contain; a short or odd file that is taken for a brace file or text '
     'of another encoding is not among them.',
     ['json_container_decoder.py', 'helper.py'], [('kind and encoding detection', 'json_container_decoder.py'), ('file names of the JSON stage', 'json_container_decoder.py')])
prop('C20', 'Moving include areas out of modules and back restores every module exactly',
     'Unpacking the code of a project - moving every include area to its shared file - and packing it again gives exactly the original '
     'modules, however areas are nested, placed, spelled and named and in whatever order modules are processed. An includr area is only '
     'read: unpacking never changes its file, building takes the file.',
     [I, S], 'area nestings, names and code lines within the bounds; several modules in every processing order',
     'The tests keep a few example modules; which line ends, blanks, names or neighbouring areas break the substitution is not sampled.',
     ['organizer_code.py', 'organizer_file.py'],
     [('area extraction and insertion', 'organizer_code.py')])
prop('C21', 'Each include area is stored in exactly the file its name and the index say',
     'The parts of an area name give the folder and the file: empty parts go up, named parts go down, a single name stays beside the module; '
     'an index entry renames it. Unpacking writes the area there and nowhere else, packing reads it from there, with and without file '
     'versions, and an edit of that file reaches every module that includes it.',
     [I, CF], 'area paths of one to four parts, modules at several depths, with and without index and version mode',
     'The examples in the repository use two or three path forms.',
     ['organizer_code.py', 'organizer_file.py', 'organizer_file_ce.py'], [('area paths', 'organizer_file.py'), ('version mode', 'organizer_file_ce.py')])
prop('C22', 'Version mode keeps other versions and builds the nearest one not above',
     'Unpacking version N writes only what differs from the nearest older version and leaves the files of every other version as they were; '
     'building version N takes for every file its newest version not above N, or the unversioned one. So a history of unpackings can be '
     'rebuilt version by version, also when objects have similar names.',
     [H, I, CF], 'histories of unpackings with arbitrary file contents, file names with common beginnings, every version number within the bounds',
     'A test of one version cannot show that another version was lost or replaced.',
     ['organizer_file_ce.py', 'helper.py', 'organizer_form_elem.py'], [('nearest version', 'organizer_file_ce.py'), ('file versions on writing', 'organizer_file_ce.py')])
prop('C23', 'The index moves the named files and nothing else, and packing returns them',
     'A file named in the index is stored at the place the index gives and built from there only; a * entry does so for all remaining files '
     'of a folder except the excepted ones; every other file stays in its place. Unpacking followed by packing returns the same tree for '
     'every index, and packing ignores what only lies in the way.',
     [I, CF], 'trees of files with arbitrary contents, file names from a list of awkward ones, indexes of every kind within the bounds',
     'Index forms and file names interact; the tests use one index.',
     ['organizer_file.py', 'index.py', 'helper.py'], [('index lookup', 'organizer_file.py')])
prop('C24', 'Form areas: shared groups of elements are laid out and put back on every form',
     'An element named include_<path> has its children in the file its name or the index says, and only there; includr_ never writes the file. Building puts the '
     'contents of the file on every form that has the area, linked to the attributes and commands of that form by name, and refuses when there are none; '
     'without changes the product is as it was, with a change in the file it is in every form.',
     [I, S, CF], 'every kind of area and depth, orders of processing, edits, numbers of attributes and commands on each form, index entries',
     'The tests never lay out and collect forms with areas.',
     ['organizer_form_elem.py', 'MetaDataObject/Form/FormElements4/FormElement.py', 'MetaDataObject/Form/FormElements4/Group.py',
      'MetaDataObject/Form/FormElements4/Table.py', 'MetaDataObject/Form/FormElements27/Panel.py'],
     [('areas out and in', 'organizer_form_elem.py'), ('links by name', 'MetaDataObject/Form/FormElements4/FormElement.py')])
prop('C26', 'A dynamic directive is the including area\'s, restored exactly on build',
     'Lines marked //DynamicDirective are kept in the shared file without a directive and are built with the directive named after the name of '
     'the including area - its own, or the one of the area around it if it names none. One shared file included with different directives is '
     'built with each. Lines without the mark are never changed.',
     [I], 'areas nested up to two levels with own, inherited or no directive; every directive; arbitrary code lines within the bounds',
     'The tests have one example of a substituted directive.',
     ['organizer_code.py'], [('directive substitution', 'organizer_code.py')])

prop('C30', 'Decoding a product into sources and building it back restores every object',
     'Extracting the objects of a configuration, an extension or an external processor and building them again gives the same product files: '
     'for every metadata type its description, modules, help, pictures and other files come back under their names with their contents, '
     'nothing is added, objects keep their order in the lists, unknown types and the files of the product itself are kept, and '
     'the list of files names exactly the files there are.',
     [I, S, CF], 'all 48 metadata types with files, all command types, nested objects in any list and processing order, arbitrary contents of '
     'one file at a time within the bounds',
     'The test fixtures contain a few of the types and compare a few files; a wrong file number or a lost file of another type is not seen.',
     ['MetaObject/__init__.py', 'MetaObject/Configuration.py', 'MetaObject/ConfigurationExtension.py', 'decoder.py',
      'MetaDataObject/__init__.py', 'MetaDataObject/core/Container.py', 'MetaDataObject/core/Simple.py'],
     [('decode / encode of an object', 'MetaDataObject/__init__.py'), ('include lists', 'MetaDataObject/core/IncludeSimple.py'),
      ('steps and processing order', 'decoder.py')])
prop('C31', 'Modules keep their text, encoding and contents; an edited source is built',
     'A module comes back from the sources byte for byte whatever its encoding, byte order mark or encryption; the source file is readable text; '
     'what is edited there is what is built, in the original encoding; an absent source means an empty module. For 8.1 and 8.2 the directives '
     'are real in the sources and comments in the product, on every line.',
     [I, CF], 'arbitrary module bytes and texts, all directives, both places of a module, within the bounds',
     'The fixtures contain well-formed UTF-8 modules.',
     ['MetaObject/__init__.py', 'helper.py'], [('module reading and writing', 'MetaObject/__init__.py'), ('byte order marks', 'helper.py')])
prop('C32', 'Templates, pictures and help keep their data whatever kind, size or comment',
     'The data of a template of any kind, a common picture or a help document come back from the sources byte for byte, whatever the comment - whose '
     'last word is the file extension - says; documents without data and those over a megabyte too. Data put into the source file is what is built.',
     [I, CF], 'ten kinds of templates in both places, every form of pictures and help, arbitrary data and comments within the bounds, documents up to 3 MB',
     'The fixtures have one template of some kinds with ordinary comments; a comment that names a taken extension or an empty picture is not among them.',
     ['MetaDataObject/Template.py', 'MetaDataObject/CommonPicture.py', 'MetaObject/__init__.py', 'MetaObject/Configuration.py', 'helper.py'],
     [('template kinds', 'MetaDataObject/Template.py'), ('base64 documents', 'MetaObject/__init__.py'), ('extension from comment', 'helper.py')])
prop('C33', 'Prefix and identifiers: the product gets what the sources say, everywhere',
     'With the option prefix, own objects of the top level lose it on extract and get the one given on build; borrowed and nested objects, commands and '
     'the product keep their names, and without change of prefix everything comes back as it was. An identifier replaced in the id file is replaced '
     'in every place of the product that uses it, files and lists included.',
     [I, CF], 'arbitrary names made of the letters of the prefix in seven places; every top-level type, nested objects, commands, templates',
     'The tests use a prefix on one fixture and never change an identifier.',
     ['MetaDataObject/__init__.py', 'MetaObject/__init__.py', 'MetaObject/ConfigurationExtension.py', 'helper.py', 'decoder.py'],
     [('ids and names', 'MetaDataObject/__init__.py'), ('header decoding', 'helper.py'), ('prefix of an extension', 'MetaObject/ConfigurationExtension.py')])
prop('C34', 'Version options: compatibility, product and tool version are applied exactly',
     'The option version replaces the compatibility mode on extract and on build and nothing else; an edited mode or product version is built; a comment '
     'with ver: gets the version, any other stays; sources of another minor version of the tool are refused for every kind of product, of another '
     'patch accepted.',
     [I, CF], 'arbitrary modes, versions, comments and tool versions within the bounds, with and without each option',
     'The tests build with one version and sources of the current tool.',
     ['MetaObject/Configuration.py', 'MetaObject/ConfigurationExtension.py', 'MetaObject/ExternalDataProcessor.py', 'MetaObject/__init__.py', 'helper.py', 'decoder.py'],
     [('compatibility mode', 'MetaObject/Configuration.py'), ('version comment', 'MetaObject/__init__.py'), ('tool version', 'helper.py')])
prop('C35', 'auto_include: the product contains exactly the objects whose folders are there',
     'With auto_include objects are listed sorted by name whatever the order they were processed in; a folder added - even the first of its type - is in '
     'the product, one removed - even the last - is not, and all other lists and files are as they were. Without the option the order is kept.',
     [I, S, CF], 'arbitrary names, every processing order, every subset removed, in a product, inside an object, for commands and in processors',
     'The fixtures are built from the sources they were extracted into.',
     ['MetaObject/__init__.py', 'MetaObject/Configuration.py', 'MetaDataObject/__init__.py', 'helper.py', 'decoder.py'],
     [('include lists', 'MetaObject/__init__.py'), ('collection of built objects', 'helper.py')])
prop('C37', 'Forms: elements, attributes, commands and module survive extract and build',
     'A managed or ordinary form taken apart into the tree of elements, their data, attributes, commands, parameters and module is put together '
     'with the same contents, in every version and place, also when the tool does not understand parts of it; with auto_include an ordinary form may only '
     'get other numbers of elements, with all anchors and links kept. Elements and attributes reordered, removed, added or moved in the sources are so '
     'in the product, counts included.',
     [I, CF], 'every kind of element, nesting, counter values, anchors, pages and links within the bounds, arbitrary names and modules, unknown parts',
     'The fixtures have a handful of forms, none with unknown parts or edited sources.',
     ['MetaDataObject/Form/FormCore.py', 'MetaDataObject/Form/FormElements4/FormElement.py', 'MetaDataObject/Form/FormElements4/FormElements4.py',
      'MetaDataObject/Form/FormElements27/Panel.py', 'MetaDataObject/Form/FormElements27/FormElement.py', 'MetaDataObject/Form/FormElements27/FormElements27.py'],
     [('form files and module', 'MetaDataObject/Form/FormCore.py'), ('managed elements', 'MetaDataObject/Form/FormElements4/FormElement.py'),
      ('ordinary panels', 'MetaDataObject/Form/FormElements27/Panel.py')])
prop('C25', 'Index files: generation and loading lose no entry and no file',
     'update_index gives every source file an entry named without its version - under the common folder given, or empty -, changes and drops no entry that '
     'is there, changes no source and nothing on a second run; what is extracted with that index goes to the common folder and comes back on build. An index '
     'made of several files has the entries of all, later files win, the file itself wins over all; a wrong index file is an error that names it.',
     [I, S, CF], 'arbitrary file and folder names, any listing order, index files with other entries, any overlap of up to three index files within the bounds',
     'The tests generate one index of one fixture and never merge several files.',
     ['index.py', 'helper.py', 'v8unpack.py', 'organizer_file.py'],
     [('generation of the index', 'index.py'), ('loading and merging', 'helper.py'), ('use of the index', 'organizer_file.py')])
prop('C43', 'Sources and products depend only on what they are made of',
     'The same product gives the same sources and the same sources give the same product, byte for byte except for the list of versions: in whatever order '
     'files are listed and tasks are done, when repeated in the same place, and from one round to the next - the sources of a product built from sources are '
     'those sources, and building changes none of them.',
     [I, S, H, CF], 'products of every kind with forms, areas and nested objects, any order at any point of a run, repeated runs and whole rounds within the bounds',
     'The tests compare one round of fixed products with the original, on one machine with one order of files and tasks.',
     ['v8unpack.py', 'decoder.py', 'helper.py', 'organizer_file.py', 'container_writer.py', 'json_container_decoder.py', 'MetaObject/__init__.py',
      'MetaDataObject/__init__.py', 'MetaDataObject/Form/FormCore.py'],
     [('pools of tasks', 'helper.py'), ('extract and build', 'v8unpack.py'), ('collection of built objects', 'helper.py')])
prop('C40', 'Failures are reported, and sources are kept when the product is unreadable',
     'Whichever single input/output operation fails, for good or for a moment, during extraction, build or indexing, the run raises an error (the command line exits with 1) or its '
     'result is complete; files of other versions stay. A product that is missing, cut or garbage is an error and leaves the sources untouched; broken source '
     'descriptions are an error that names the object. Errors pass from task to run, through other processes and wrapping with class, message, detail and text.',
     [I, F, S, CF], 'an error at every operation, every product of up to 40 arbitrary bytes, every cut, all error classes, every failing task and task order',
     'The tests never make an operation fail and check no error text; the point of failure is not theirs to choose.',
     ['v8unpack.py', 'helper.py', 'ext_exception.py', 'decoder.py', 'container_reader.py', 'container_writer.py', 'json_container_decoder.py',
      'organizer_file.py', 'index.py'],
     [('extract and build', 'v8unpack.py'), ('pools of tasks', 'helper.py'), ('errors', 'ext_exception.py')])
prop('C41', 'Batch files and the command line do exactly what the calls do',
     'A batch run processes exactly the products asked for - the named one, or all that are not disabled -, each with its own files, index, temporary folder '
     'and options, so that the result is that of a run for it alone; an unknown or failing product makes the run fail. Every command line gives the files the call with the same options gives, with the number '
     'of processes asked for, exits with 0 then and with 1 after an error.',
     [I, CF], 'every value of disable and product code, every option and pairs of them, right and wrong files, for extract, build and index',
     'The tests call the command line with two or three argument lists and do not compare it with calls.',
     ['v8unpack.py', 'index.py', 'helper.py'], [('main and batch runs', 'v8unpack.py'), ('batch index', 'index.py')])
prop('C42', 'From file to file: extract and build give back the product, edits are built',
     'A product extracted to sources and built from them has the same files with the same contents, whatever folders, temporary folder, index, version mode '
     'or options are used and whatever lay in those folders before; edited modules and areas are what is built; versions extracted one after another '
     'into the same sources are each built as they were; building changes no source, and no temporary files or processes are left; several products '
     'built one after another, in the same temporary folder or with the same options, do not mix, and options given to a call stay as given.',
     [I, H, CF], 'processors, configurations and extensions with arbitrary module texts and areas, folders, index kinds, versions and sequences of runs',
     'The tests run fixtures through one folder layout with clean folders, and few of them compare the result with the original.',
     ['v8unpack.py', 'decoder.py', 'container_reader.py', 'container_writer.py', 'json_container_decoder.py', 'organizer_file.py', 'helper.py'],
     [('extract and build', 'v8unpack.py'), ('containers', 'container_writer.py'), ('products', 'decoder.py')])
