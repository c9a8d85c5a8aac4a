"""The properties, in one place: mkmeta.py writes properties.jsonl and MANIFEST.json from them."""

S = 'src/v8unpack/'
TECH = 'runtime monitoring: '

PROPS = [
    dict(
        id='C01', title='Packing a container and reading it back loses nothing',
        statement='Any set of named files packed into a binary container (one or two containers per file, folders '
                  'becoming nested containers, compressed or not) is read back with exactly the same names and bytes. '
                  'The written file is a legal container: addresses, sizes, '
                  'block chains and the table of contents are consistent, and each container is addressed relative to '
                  'its own start.',
        over=['inputs'],
        quant='every number of files (table of contents of one block, exactly full blocks, several blocks), every file '
              'size around the block boundaries, every file name, one or two containers per file, folders within folders',
        why='The tests round-trip a few sample products whose tables of contents fit the first block; lossless packing '
            'must hold for every count, size and name, and the legality of the written bytes is never looked at.',
        files=[S + 'container_writer.py', S + 'container.py', S + 'container_doc.py', S + 'container_reader.py'],
        mech=[('container writer', S + 'container_writer.py'), ('block chain and table of contents',
                                                                S + 'container.py, ' + S + 'container_doc.py')],
        observe=['the bytes of the written file', 'the directory written by the container reader'],
        technique=TECH + 'generated directories packed by the real code, the bytes judged online by an independent '
                         'strict container parser and by re-reading',
        note='Sampled sizes, counts and names, biased to block boundaries; the reference parser is independent.'),
    dict(
        id='C02', title='Every legal layout of a container is read exactly',
        statement='Reading a binary container returns exactly the files it holds, whatever legal physical layout the '
                  'writer of the file chose: block sizes, chained and out-of-order blocks, free blocks, padding, 32 or '
                  '64 bit format, one or two containers.',
        over=['inputs'],
        quant='every placement of headers, data and table-of-contents blocks that the format allows, both address '
              'widths, any number and size of files',
        why='Tests read only files saved by one platform build, or written by this tool itself; other legal layouts '
            'never appear in them.',
        files=[S + 'container.py', S + 'container_doc.py', S + 'container_reader.py'],
        mech=[('container reader', S + 'container.py'), ('document block chain', S + 'container_doc.py')],
        observe=['the directory written by the container reader'],
        technique=TECH + 'hostile-layout container writer feeds the real reader; the files that come out are compared '
                         'byte by byte',
        note='Layouts sampled from a generator of legal layouts.'),
    dict(
        id='C03', title='The packed layer inside a container is lossless',
        statement='Compressing a tree of inner files into a product file and decompressing it again returns every file '
                  'byte for byte, nested containers included, and a nested container stays a nested container.',
        over=['inputs', 'schedules'],
        quant='every content of inner files (empty, incompressible, looking like a container, larger than a block), any '
              'number of nested containers, any completion order of the workers',
        why='Tests only push sample products through; contents that mimic container headers, empty or large files and '
            'the order of the workers are not covered.',
        files=[S + 'container_reader.py', S + 'container_writer.py'],
        mech=[('decompress and extract', S + 'container_reader.py'), ('compress and build', S + 'container_writer.py')],
        observe=['directories of both stages'],
        technique=TECH + 'generated inner trees pushed through both directions under chosen worker schedules; contents '
                         'compared, the bytes parsed independently',
        note='Sampled contents and schedules.'),
    dict(
        id='C04', title='A damaged binary is rejected, never silently half extracted',
        statement='Extracting a product file that was cut off, lost an inner file the product needs, or has a '
                  'structure field or compressed stream that contradicts the rest raises an error, or gives exactly the '
                  'sources of the undamaged file; it never reports success with parts missing. The answer always comes in bounded time.',
        over=['crash_points', 'fault_sequences', 'inputs'],
        quant='every length at which a file can be cut, every structural field of headers and block chains, every inner '
              'stream and every inner object file of the sample products',
        why='The tests contain no damaged file at all; the cut can fall on any byte and the fault on any field.',
        files=[S + 'container.py', S + 'container_doc.py', S + 'container_reader.py', S + 'v8unpack.py'],
        mech=[('block reading', S + 'container_doc.py'), ('inflate of inner files', S + 'container_reader.py'),
              ('object decoding', S + 'MetaDataObject/__init__.py')],
        observe=['exception or not', 'the extracted directory', 'elapsed time'],
        technique=TECH + 'fault injection on real product files (cuts, field overwrites, stream cuts, lost files) with '
                         'an outcome monitor and a watchdog',
        level='fault_enumeration',
        note='All cuts of the small products and structure boundaries of the large ones in the thorough tier, sampled '
             'in the quick tier.'),
    dict(
        id='C05', title='Brace files survive decoding to JSON and encoding back',
        statement='Decoding a 1C brace file into its structured form and encoding it again gives a brace file with the '
                  'same nesting and the same values: strings with any characters, quotes and line breaks, numbers, '
                  'identifiers, base64 blobs of any length and empty lists. A file that is not a brace file is never '
                  'taken for one.',
        over=['inputs'],
        quant='every brace document: any nesting, string content, blob size, placement of line breaks, several roots',
        why='Tests decode a handful of platform files; the line-oriented decoder has special cases for multi-line '
            'strings, blobs and long lines whose combinations no fixed sample settles.',
        files=[S + 'json_container_decoder.py'],
        mech=[('decoder and encoder', S + 'json_container_decoder.py')],
        observe=['decoded structure', 'encoded text'],
        technique=TECH + 'generated brace documents and mutated real files pushed through decode and encode; values '
                         'compared by an independent brace parser',
        note='Sampled documents in the line layouts the platform writes.'),
    dict(
        id='C06', title='Extract followed by build gives back an equivalent product',
        statement='Extracting a processor, report, configuration or extension to sources and building it again gives a '
                  'product with exactly the same inner files, each with the same values, text or bytes. Its own '
                  'bookkeeping (list of versions, table of file hashes) matches the files it holds.',
        over=['inputs', 'schedules'],
        quant='every product of the supported kinds and layouts, with any set, names, order and content of objects, '
              'modules, forms, templates and pictures; any worker schedule',
        why='Tests round-trip a few sample files as they are; any other object content or combination is unseen.',
        files=[S + 'v8unpack.py', S + 'decoder.py', S + 'MetaDataObject/__init__.py', S + 'organizer_file.py',
               S + 'metadata_types.py'],
        mech=[('decode and encode of objects', S + 'MetaDataObject/'), ('stages', S + 'v8unpack.py')],
        observe=['inner files of the product before and after'],
        technique=TECH + 'randomly edited real products go through extract and build; an independent parser compares '
                         'every inner file and recomputes the bookkeeping',
        note='Edits of seven real products; kinds of objects limited to what they and the synthesised ones hold.'),
    dict(
        id='C07', title='Sources are a fixed point and an extraction leaves nothing stale',
        statement='Extracting what was built from sources gives the same sources byte for byte (only random version ids '
                  'and hashes differ). Extracting again, or into a folder that holds other sources, gives exactly the '
                  'sources of this product and leaves nothing of the former content.',
        over=['inputs', 'histories'],
        quant='every product, every former content of the folder, any number of repetitions',
        why='Source control relies on extraction being repeatable; tests extract into a fresh folder once.',
        files=[S + 'v8unpack.py', S + 'helper.py', S + 'organizer_file.py', S + 'MetaDataObject/__init__.py'],
        mech=[('extraction into sources', S + 'v8unpack.py'), ('writing of sources', S + 'helper.py')],
        observe=['the source folder'],
        technique=TECH + 'source trees of repeated and stale-folder extractions are compared byte by byte',
        note='Sampled products, edits and former contents.'),
    dict(
        id='C08', title='Module texts are edited where they are and built exactly',
        statement='Every module of a product is exactly one source file holding exactly its text (UTF-8 with or '
                  'without its mark, or windows-1251), and a module stored compiled without its text is kept as it is. Editing source files and building '
                  'changes exactly those modules to exactly the new texts and nothing else in the product.',
        over=['inputs', 'histories'],
        quant='every text in every module (objects, forms, commands, managers, application), in utf-8 and windows-1251, '
              'and every set of edits',
        why='Tests hold a handful of modules with tame texts and never edit the sources before a build.',
        files=[S + 'MetaDataObject/__init__.py', S + 'helper.py', S + 'organizer_code.py',
               S + 'MetaDataObject/core/Simple.py', S + 'MetaObject/Form803.py'],
        mech=[('module texts', S + 'MetaDataObject/__init__.py'), ('code areas', S + 'organizer_code.py')],
        observe=['*.bsl source files', 'module texts inside the product'],
        technique=TECH + 'every module gets a marked generated text that is tracked into sources and, after edits, '
                         'into the built product',
        note='Sampled texts; line ends are normalised, which is documented.'),
    dict(
        id='C13', title='Sources of several versions side by side build each version exactly',
        statement='Extracting with a version number (descent) writes a file under that number only if it differs from '
                  'the nearest older version, and leaves all other files as they were. Building for any number uses for '
                  'every file the nearest version not newer than it, and gives the product extracted for it.',
        over=['histories', 'inputs'],
        quant='every sequence of extracted versions in any order with any differences between them, any number built',
        why='Tests have one tiny history; which version of which file is picked depends on the whole history.',
        files=[S + 'organizer_file_ce.py', S + 'organizer_file.py', S + 'v8unpack.py', S + 'organizer_form_elem.py'],
        mech=[('choice of the version of a file', S + 'organizer_file_ce.py')],
        observe=['the source folder after every step', 'the products built'],
        technique=TECH + 'model-based monitor: after every step of a random history the folder is compared with a model '
                         'of the version rule, and products are built for numbers in between',
        note='Histories of 2 to 5 steps over sampled products; objects are not removed between versions.'),
    dict(
        id='C16', title='The result does not depend on workers, directory order or locale',
        statement='The sources extracted and the product built are the same for every number of worker processes, every '
                  'order in which workers finish, every order in which the system lists directories and every text '
                  'encoding the system takes by default.',
        over=['schedules'],
        quant='every worker count, completion order, listing order and default encoding, with and without auto_include',
        why='A test run sees one accidental order; unordered results of worker pools are consumed in many places.',
        files=[S + 'decoder.py', S + 'helper.py', S + 'organizer_file.py', S + 'v8unpack.py',
               S + 'MetaDataObject/__init__.py', S + 'container_writer.py'],
        mech=[('run in pool', S + 'helper.py'), ('collecting of results', S + 'decoder.py')],
        observe=['source folders and products of repeated runs'],
        technique=TECH + 'chosen completion orders, directory orders and locales, real pools with injected delays; results '
                         'compared',
        level='exploration', note='Sampled schedules; the orders seen are counted in the evidence.'),
    dict(
        id='C09', title='Include areas of modules are split into files and put back exactly',
        statement='Extraction moves the code inside every include_ area of a module, nested ones too, into the file its '
                  'name (or its renaming by the index) designates, leaves files of includr_ areas alone, and keeps all '
                  'other lines in place. Building puts the current content of the area files back, so unedited sources '
                  'give the module back exactly and an edited area file changes every module that includes it.',
        over=['inputs', 'histories'],
        quant='every nesting of regions and areas, every area name (one part, several, parts that go up), every content '
              'and file form (byte order mark, line ends, no final line end), with and without index and descent',
        why='Tests contain no nested, renamed, read-only or edited areas; the splitting is driven by the text itself.',
        files=[S + 'organizer_code.py', S + 'organizer_file.py'],
        mech=[('splitting and joining', S + 'organizer_code.py')],
        observe=['all *.bsl files of the workspace', 'modules of the product built'],
        technique=TECH + 'generated modules go through the real extraction and build; a model of areas predicts every '
                         'file of the workspace and every module built, before and after edits',
        note='Sampled area trees.'),
    dict(
        id='C10', title='Dynamic directives follow the include area they are in',
        statement='Inside an include area whose name carries a directive, every line marked //DynamicDirective is built '
                  'with that directive (nested areas inherit it or give their own) and extracted without it. Marked '
                  'lines where no area gives a directive are kept as they are.',
        over=['inputs', 'histories'],
        quant='every nesting of areas with and without directives, every position and indent of marked lines',
        why='No test uses a dynamic directive.',
        files=[S + 'organizer_code.py'],
        mech=[('directives', S + 'organizer_code.py')],
        observe=['*.bsl files', 'modules of the product built'],
        technique=TECH + 'as C09, with a model of the directive in force at every marked line',
        note='Sampled area trees.'),
    dict(
        id='C14', title='The index places files elsewhere and the build collects them',
        statement='With an index (files and * folders, exceptions, nested index files, with or without descent) an '
                  'extraction writes each file where the index says, everything else as without an index, and touches '
                  'nothing else outside of the sources. A build with the index takes those files, in preference to '
                  'local copies, and gives the same product as a build of the plain sources.',
        over=['inputs', 'histories'],
        quant='every index over the files of any product, every current directory, any former content',
        why='Tests hardly use an index; which copy of a file is built depends on the whole index and folder state.',
        files=[S + 'index.py', S + 'organizer_file.py', S + 'helper.py', S + 'organizer_form_elem.py'],
        mech=[('lookup', S + 'index.py'), ('collecting', S + 'organizer_file.py')],
        observe=['the whole workspace', 'the product built'],
        technique=TECH + 'random indexes; a model predicts the place of every file; products built with and without '
                         'the index are compared',
        note='Sampled indexes; targets inside the sources are excluded by the documentation.'),
    dict(
        id='C11', title='A managed form splits into elem.json and back without loss',
        statement='elem.json of a managed form lists exactly the elements, properties, parameters and commands the form '
                  'holds, with their names, types, order and links, and building gives the form back exactly. Elements '
                  'copied, moved, removed or reordered in elem.json are so in the form built, and nothing else changes. '
                  'A form the tool cannot split is kept whole.',
        over=['inputs', 'histories'],
        quant='every form layout, every nesting and order of elements, every edit of elem.json',
        why='Positions in a form depend on counters inside it, so each combination of optional parts and children is '
            'another path; tests round-trip a few forms.',
        files=[S + 'MetaDataObject/Form/FormCore.py', S + 'MetaDataObject/Form/FormElements4/FormElement.py',
               S + 'MetaDataObject/Form/FormElements4/FormElements4.py', S + 'MetaDataObject/Form/FormElements4/Group.py',
               S + 'MetaDataObject/Form/FormElements4/Table.py', S + 'organizer_form_elem.py'],
        mech=[('splitting and joining of elements', S + 'MetaDataObject/Form/FormElements4/FormElement.py')],
        observe=['elem.json', 'forms of the product built'],
        technique=TECH + 'real forms edited at random; an independent reader of the form predicts elem.json, the same '
                         'edit applied to form and elem.json predicts the form built',
        level='exploration', note='Sampled forms and edits.'),
    dict(
        id='C12', title='An ordinary form splits into elem.json and back without loss',
        statement='elem.json of an ordinary form lists exactly the elements and pages it holds, and building gives the '
                  'form back exactly. With auto_include it gives back the same elements, pages, anchors and data sources '
                  'up to the numbering of elements, and what was built is a fixed point. Elements copied, removed or '
                  'reordered in elem.json are so in the form built; a form the tool cannot split is kept whole.',
        over=['inputs', 'histories'],
        quant='every nesting of panels and pages, every anchor and data source, every edit of elem.json, with and '
              'without auto_include, layouts 26 and 27',
        why='Elements refer to each other by numbers which auto_include assigns anew; tests round-trip a few forms and '
            'compare sizes.',
        files=[S + 'MetaDataObject/Form/FormElements27/Panel.py', S + 'MetaDataObject/Form/FormElements27/FormElement.py',
               S + 'MetaDataObject/Form/FormElements27/FormElements27.py', S + 'MetaDataObject/Form/FormCore.py',
               S + 'MetaDataObject/Form/FormElements26/FormElement.py', S + 'organizer_form_elem.py'],
        mech=[('panels and anchors', S + 'MetaDataObject/Form/FormElements27/Panel.py')],
        observe=['elem.json', 'forms of the product built'],
        technique=TECH + 'real forms edited at random; compared with an independent reading in which element numbers '
                         'are replaced by names',
        level='exploration', note='Sampled forms and edits; anchors that already point outside their panel are not '
                                  'compared with auto_include.'),
    dict(
        id='C17', title='A failure anywhere is reported, never passed off as success',
        statement='If any file operation or worker task fails during an extraction or a build, or a description file is '
                  'damaged, the call raises ExtException, or its result is the complete one all the same. The command '
                  'line exits with 0 exactly when the whole result is there.',
        over=['fault_sequences', 'inputs'],
        quant='every file operation, every worker task, every damaged description file, every command line',
        why='Tests never make an operation fail; a swallowed error gives a product with parts missing.',
        files=[S + 'v8unpack.py', S + 'helper.py', S + 'ext_exception.py', S + 'decoder.py', S + 'organizer_file.py',
               S + 'container_reader.py', S + 'container_writer.py'],
        mech=[('worker pool', S + 'helper.py'), ('interface', S + 'v8unpack.py')],
        observe=['exceptions', 'exit codes', 'the result of the disturbed call'],
        technique=TECH + 'fault injection into file operations and worker tasks; a disturbed call must raise or give the '
                         'result of an undisturbed one',
        level='exploration', note='Sampled fault points; a killed worker process is not judged.'),
    dict(
        id='C18', title='The tool changes nothing but what it was asked to write',
        statement='An extraction writes only below the output folder and its temporary folder (and where an index or an area '
                  'name made of underscores sends a file), a build only its output file and the temporary folder; the input of '
                  'either is left as it was, the default temporary folder is removed, and what was in output or temporary '
                  'folder before does not matter, nor do other runs going on at the same time. A product with names that lead '
                  'elsewhere is refused or contained.',
        over=['inputs', 'histories', 'schedules'],
        quant='every product, hostile names included, every former content of the folders involved, and runs side by side',
        why='Tests never look outside of the output and have no hostile product.',
        files=[S + 'container.py', S + 'helper.py', S + 'organizer_code.py', S + 'v8unpack.py', S + 'organizer_file.py'],
        mech=[('names', S + 'helper.py'), ('folders of a call', S + 'v8unpack.py')],
        observe=['file-system changes of the process', 'snapshots of the workspace'],
        technique=TECH + 'audit hook recording every file-system change, snapshots around sentinels, and concurrent real '
                         'runs compared with lone ones',
        level='exploration', note='Sampled products and names; sources of a build are trusted.'),
    dict(
        id='C20', title='The prefix option renames exactly the own top-level objects',
        statement='Extracted with a prefix and built with a prefix (the same, another or none), a product has the first taken '
                  'off and the second put on the names of its own top-level objects, and the name prefix of an extension set; '
                  'the root, nested and borrowed objects and everything else are as in the original.',
        over=['inputs', 'configurations'],
        quant='every product, every set of names and every pair of prefixes',
        why='Tests do not use a prefix; the two directions decide independently which names it applies to.',
        files=[S + 'helper.py', S + 'MetaObject/ConfigurationExtension.py', S + 'MetaDataObject/__init__.py'],
        mech=[('names', S + 'helper.py')],
        observe=['names in the product built'],
        technique=TECH + 'products with prefixed and plain names; the product built is compared with a predicted one',
        level='exploration', note='Sampled products, names and prefixes.'),
    dict(
        id='C21', title='Version settings reach exactly their places in the product',
        statement='The version option sets the compatibility version of a configuration or extension when given to the '
                  'extraction or to the build, and otherwise it stays as in the sources. version.bin sets the version of an '
                  'extension and the text after "ver:" in comments. Nothing else changes, the options given are not changed, '
                  'and one build does not influence the next.',
        over=['inputs', 'configurations', 'histories'],
        quant='every product, combination of options, version.bin and comments, and sequence of builds',
        why='Tests do not look at versions in a product; settings of one run could leak into the next.',
        files=[S + 'MetaObject/Configuration.py', S + 'MetaObject/ConfigurationExtension.py', S + 'MetaObject/__init__.py',
               S + 'decoder.py', S + 'v8unpack.py'],
        mech=[('versions', S + 'MetaObject/Configuration.py'), ('comments', S + 'MetaObject/__init__.py')],
        observe=['fields of the product built', 'version.bin', 'the options passed in'],
        technique=TECH + 'products built under random settings are compared with a predicted product',
        level='exploration', note='Sampled products and settings.'),
    dict(
        id='C19', title='Sources of an incompatible version of the tool are refused',
        statement='An extraction marks the sources with the version of the tool. A build succeeds only if the mark has the '
                  'major and minor numbers of the tool; otherwise, or without a readable mark, it raises and writes no product.',
        over=['inputs'],
        quant='every product and every version mark',
        why='Tests use sources of the same version only; a wrong product from old sources would be silent.',
        files=[S + 'helper.py', S + 'MetaObject/ExternalDataProcessor.py', S + 'MetaObject/Configuration.py',
               S + 'MetaObject/ConfigurationExtension.py'],
        mech=[('version gate', S + 'helper.py')],
        observe=['the mark in the sources', 'exceptions and products of builds'],
        technique=TECH + 'builds of sources with random marks; the outcome is predicted from the numbers',
        level='exploration', note='Sampled products and marks.'),
    dict(
        id='C22', title='With auto_include the contents of a product are its folders',
        statement='A product built with auto_include lists exactly the objects whose folders exist, each at its parent and '
                  'sorted by name, holds their files and no placeholder, whatever folders were added, copied or removed '
                  'before; extracted again it gives the same folders.',
        over=['inputs', 'histories'],
        quant='every product and every history of added and removed object folders',
        why='Tests never add or remove an object; lists are filled bottom-up over several rounds of workers.',
        files=[S + 'MetaObject/__init__.py', S + 'MetaObject/Configuration.py', S + 'MetaDataObject/__init__.py',
               S + 'decoder.py', S + 'helper.py'],
        mech=[('contents', S + 'MetaObject/__init__.py')],
        observe=['lists of contents in the product built', 'sources extracted from it'],
        technique=TECH + 'random histories of folder edits; an independent reader compares the lists with the folders',
        level='exploration', note='Sampled products and histories.'),
    dict(id='C15', title='The index generator adds what is missing and keeps what is there',
     statement='update_index (and -I, -IA) gives every file below the source folder exactly one entry (files of several versions share one, under the name without the version): its path below the target folder, or an empty string without one. Entries the index already has stay as they are, nothing else is added, a second run changes nothing, no other file is touched, and an update that fails is reported and leaves the index as it was. Extracting and building with the generated index places every file there and gives the same product.',
     over=['inputs','histories'], quant='every source tree, every index found before, every order of additions and updates',
     why='the tests never run the generator; the user keeps hand-written targets in the same file',
     files=['src/v8unpack/index.py','src/v8unpack/v8unpack.py','src/v8unpack/helper.py'],
     mech=[('listing merged into the index', S + 'index.py')],
     observe=['the index file after each update', 'the file-system events of the update', 'the placement of files by an extraction with it'],
     technique=TECH+'reference index computed from an independent listing compared with the file written over update histories; audit-hook file-system monitor; end-to-end placement check',
     level='exploration', note='a source file of a configuration whose own name ends in a number (Configuration.9.json) is a known finding'),
    dict(id='C25', title='The command line and product files do what the functions do',
     statement='v8unpack -E, -B, -I, -EA, -BA and -IA with any of their options leave the same files as calls of extract, build and update_index with the same parameters, and exit with a non-zero code exactly when such a call fails; --processes sets the number of workers. A product file is processed product by product in its order, each with exactly its own paths and options; disabled products are left alone, a product selected by its code is processed alone even if disabled, an unknown code fails, and the product file itself is never changed.',
     over=['configurations','inputs'], quant='every command line and product file, relative and absolute paths, any current folder',
     why='the tests call single functions; build systems rely on the batch commands and their exit codes',
     files=['src/v8unpack/v8unpack.py','src/v8unpack/__main__.py','src/v8unpack/helper.py'],
     mech=[('command line', S + 'v8unpack.py'), ('loops over the product file', S + 'v8unpack.py')],
     observe=['files and binaries left in twin workspaces', 'exit codes in process and of real processes', 'sizes of the worker pools asked for'],
     technique=TECH+'twin-workspace monitor: the files a command leaves are compared with those of direct calls; exit-code monitor, also on real processes with real workers',
     level='exploration', note=''),
        dict(id='C29', title='Form groups kept in files of their own are shared exactly',
         statement='A form group (a panel with its pages in an ordinary form) named include_<path> is written by extract to its own file, whose place an index may change, and build puts it back unchanged; a group named includr_<path> takes the elements of that file in every other form, with its references to attributes of the form, columns of these and commands bound by name to that form. Editing the file changes all forms that use it and nothing else. A form that lacks an attribute or command the elements need, or a missing file, fails the build.',
         over=['inputs','histories'], quant='every form, every set of groups, every numbering of the attributes of the receiving form, every edit of the shared file',
         why='the tests use one form; ids of attributes differ between forms, so a wrong binding looks plausible and shows only in 1C',
         files=['src/v8unpack/organizer_form_elem.py','src/v8unpack/organizer_file.py'],
         mech=[('areas of form elements', S + 'organizer_form_elem.py')],
         observe=['files an extraction writes', 'forms in the product built, read by an independent parser'],
         technique=TECH+'forms with shared groups are synthesised from real ones; an independent model predicts the files and the forms built, over edit histories',
         level='exploration', note='ordinary forms are covered by their own cases; references into an attribute deeper than its columns are kept as they are by the tool'),
        dict(id='C26', title='Templates, pictures and other payloads are files, byte for byte',
         statement='The payload of every template, common picture, help page, set of predefined data, XDTO package and WS reference, whatever its bytes, is a source file of its own object, with the extension the comment of the object names where there is one, and a build puts it back unchanged; an object without a payload stays without. Replacing such a file changes exactly that payload in the product (line ends of text templates are free).',
         over=['inputs'], quant='every product, every payload, every comment, every replacement of a payload file',
         why='the tests have a handful of payloads; a payload that meets the name of another file of the object is lost silently',
         files=['src/v8unpack/MetaDataObject/Template.py','src/v8unpack/MetaDataObject/CommonPicture.py','src/v8unpack/MetaObject/__init__.py','src/v8unpack/MetaDataObject/core/Container.py','src/v8unpack/helper.py'],
         mech=[('templates', S + 'MetaDataObject/Template.py'), ('html and binary data', S + 'MetaObject/__init__.py')],
         observe=['source files of an extraction compared with the payloads put in', 'payloads of the product built, before and after edits'],
         technique=TECH+'generated payloads and comments put into real products; byte comparison of source files and of the product built, over edits',
         level='exploration', note=''),
    dict(id='C24', title='Platforms without directives get them as comments, sources have them',
         statement='In modules of ordinary forms and root modules of 8.0-8.2 products a source line that starts with #Область, #КонецОбласти, &НаСервере or &НаКлиенте is built as a comment "// v8unpack ..." and extracted again as the directive, whichever line it is. All other lines, and modules of 8.3 products, are kept as they are.',
         over=['inputs'], quant='every module text, every edit of it',
         why='the one 8.2 sample has few directives; a directive left in place does not compile on the old platform',
         files=['src/v8unpack/MetaObject/__init__.py','src/v8unpack/MetaDataObject/Form/FormCore.py','src/v8unpack/MetaObject/ExternalDataProcessor.py','src/v8unpack/MetaObject/Configuration.py'],
         mech=[('commented directives', S + 'MetaObject/__init__.py')],
         observe=['source files of an extraction', 'module texts of the product built, read by an independent parser'],
         technique=TECH+'generated module texts in products of old and new platforms compared with a model of the rule, over edits',
         level='exploration', note='indented directives are not judged'),
    dict(id='C27', title='Changes of different objects stay apart and merge file by file',
         statement='A change of some objects of a product changes only source files of these objects (of their parent when objects are added, removed or reordered). Changes of different objects never meet in one source file, and putting the changed files of several of them into the sources gives exactly the sources, and by a build the product, that has all the changes.',
         over=['inputs','histories'], quant='every product, every set of changes of different objects',
         why='parallel work in version control relies on it; tests never compare the sources of two products',
         files=['src/v8unpack/MetaObject/__init__.py','src/v8unpack/MetaDataObject/__init__.py','src/v8unpack/decoder.py','src/v8unpack/helper.py'],
         mech=[('objects into folders', S + 'MetaDataObject/__init__.py'), ('bookkeeping', S + 'MetaObject/__init__.py')],
         observe=['differences of source trees', 'the product built of merged sources'],
         technique=TECH+'metamorphic: random sets of edits applied one by one and together; the source deltas are merged and compared',
         level='exploration', note='two changes of one object are not merged'),
    dict(id='C28', title='A value edited in a description file is built exactly there',
             statement='A caption, expression, tooltip or other text that is edited in a description file of the sources (the name, synonyms and comment of an object: in its header there) takes its place in the product built, and nothing else in the product changes, whatever layout, key order or letter escapes the editor saves the file with. The sources of that product show the new value.',
             over=['inputs','histories'], quant='every product, every text of a description, every JSON layout of the file',
             why='sources are edited by hand and by formatters, tests only build what the extraction wrote',
             files=['src/v8unpack/MetaObject/__init__.py','src/v8unpack/MetaDataObject/__init__.py','src/v8unpack/MetaDataObject/core/Container.py','src/v8unpack/helper.py','src/v8unpack/json_container_decoder.py'],
             mech=[('header assembly', S + 'helper.py'), ('descriptions read back', S + 'MetaObject/__init__.py')],
             observe=['the parsed product built from edited sources', 'descriptions extracted again'],
             technique=TECH+'differential: the same edits applied to an independently parsed product must give the product built',
             level='exploration', note='the plain name2 and comment keys repeat the header for readers; the edit is made in the header they repeat'),
    dict(id='C23', title='The source tree mirrors the tree of objects',
             statement='Extraction gives every object of a product exactly one folder <kind>/<name> below the folder of its parent (the root is the source folder), with the identifier of the object in .id.json and its name, synonyms in every language and comment in the description, just as in the product. Commands kept inside their parent have folders too; no other folder or file is written for objects.',
             over=['inputs'], quant='every product: any objects, names, languages and texts',
             why='reviews, searches and merges rely on the place and the shown values; the build ignores some of them, so no round trip notices when they are wrong',
             files=['src/v8unpack/MetaObject/__init__.py','src/v8unpack/MetaDataObject/__init__.py','src/v8unpack/helper.py','src/v8unpack/metadata_types.py','src/v8unpack/MetaDataObject/core/IncludeSimple.py'],
             mech=[('header shown', S + 'helper.py'), ('includes', S + 'MetaObject/__init__.py')],
             observe=['source trees written by extract'],
             technique=TECH+'differential: the tree of objects is read from the product independently and compared with folders, identifiers and descriptions written',
             level='exploration', note='names are identifiers, unique within a kind and parent, as the platform makes them'),
    dict(id='C30', title='Identifiers are kept in .id.json and can be exchanged there',
             statement='The identifiers that tell an object from copies of it (its own, the four of a processor) are in its .id.json. Replaced there, the product built with auto_include has the new ones in the names of its files, its description and the contents of its parent, and nothing else changed; a form attribute with the type of the owner of the form gets that of the object whose folder the form is in. Without auto_include, identifiers replaced everywhere in the sources are replaced everywhere in the product.',
             over=['inputs','histories'], quant='every product, every set of identifiers exchanged',
             why='extensions and processors built from the same sources must not share identifiers when they run in one configuration (history 0.20, 1.1.1, 1.2); tests build only with the identifiers extracted',
             files=['src/v8unpack/MetaDataObject/__init__.py','src/v8unpack/MetaDataObject/DataProcessor.py','src/v8unpack/MetaDataObject/core/Container.py','src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py','src/v8unpack/MetaObject/ExternalDataProcessor.py'],
             mech=[('identifiers apart', S + 'MetaDataObject/__init__.py'), ('processor', S + 'MetaDataObject/DataProcessor.py'), ('owner of a form', S + 'MetaDataObject/Form/FormElements4/FormElement.py')],
             observe=['the parsed product built from sources with exchanged identifiers', 'sources extracted from it'],
             technique=TECH+'differential: the same exchange applied to an independently parsed product must give the product built',
             level='exploration', note='references from other objects are the user\'s to replace (documented)'),
    dict(id='C31', title='The report of a failure names the file at fault',
         statement='When a build fails because a description (.json) of the sources is not readable as JSON, or a module (.bsl) not as text, the report of the failure names the path of that file in the sources; the file of an include area and an index, nested ones too, that are missing or unreadable are named as well. When an extraction fails because an inner file of an object in the binary cannot be unpacked or is not the text it must be, the report names the identifier of the object. This holds for the exception raised and for what the command line prints, at every depth of nesting and whichever worker process meets the file.',
         over=['inputs','fault_sequences'], quant='every product, every description, module and inner file of an object, every damage that makes the operation fail',
         why='products have thousands of files and a failure comes through worker processes and several layers that wrap it anew; tests never look at a report',
         files=['src/v8unpack/ext_exception.py','src/v8unpack/helper.py','src/v8unpack/decoder.py','src/v8unpack/MetaDataObject/__init__.py','src/v8unpack/MetaObject/__init__.py','src/v8unpack/container_reader.py','src/v8unpack/organizer_code.py','src/v8unpack/v8unpack.py'],
         mech=[('wrapping of exceptions', 'src/v8unpack/ext_exception.py'), ('run in pool', S + 'helper.py')],
         observe=['text of exceptions raised by extract and build', 'output of the command line'],
         technique=TECH+'fault injection: one file at a time is damaged, the report is searched for its path or identifier',
         level='exploration', note='failures of meaning (contents that parse but do not fit) and of the root object of a binary are not judged, nor sources with versions side by side, where the number in the name of the file is left out'),
    dict(id='C32', title='Runs do not influence each other',
         statement='What an extraction, a build or an index update does depends only on its arguments and on the files they name. Runs made before in the same process, of other products, with other options or failed ones, change nothing in it, and neither do runs at the same time in other processes that write to other folders and files, even when they read the same sources. A run leaves the state of its process (working folder, environment, open files, child processes) as it found it.',
         over=['histories','schedules'], quant='every sequence of runs in a process and every overlap of runs in several processes',
         why='build scripts make many products in one process and several in parallel; tests run each thing once',
         files=['src/v8unpack/v8unpack.py','src/v8unpack/helper.py','src/v8unpack/decoder.py','src/v8unpack/organizer_file.py','src/v8unpack/organizer_code.py','src/v8unpack/index.py','src/v8unpack/container_writer.py','src/v8unpack/MetaObject/__init__.py'],
         mech=[('temporary folders and options', 'src/v8unpack/v8unpack.py'), ('index', S + 'helper.py')],
         observe=['sources, products, indexes and failures of runs'],
         technique=TECH+'differential: every job alone in a fresh process, in random sequences in one process, and in parallel processes',
         level='exploration', note='overlaps are those the system scheduler makes'),
    dict(id='C33', title='An interrupted run can simply be repeated',
         statement='When the process of an extraction or a build dies at any point, even in the middle of writing a file, running it again with the same arguments gives the sources or the product that a run never interrupted gives: also in the same temporary folder, beside sources of other versions and with an index. A build that dies leaves the sources as they were.',
         over=['crash_points','inputs'], quant='every point at which a run can be killed, every product, state of the folders and set of options',
         why='runs of minutes on big configurations are stopped by users and build servers; tests never stop one',
         files=['src/v8unpack/v8unpack.py','src/v8unpack/helper.py','src/v8unpack/organizer_file.py','src/v8unpack/organizer_file_ce.py','src/v8unpack/organizer_code.py','src/v8unpack/container_reader.py','src/v8unpack/container_writer.py','src/v8unpack/decoder.py'],
         mech=[('clearing of folders', S + 'helper.py'), ('own version of a file', S + 'organizer_file_ce.py')],
         observe=['sources and products after a kill and a second run'],
         technique=TECH+'crash injection: the process is killed at file operations of every kind and place in the code, torn writes included, and run again',
         level='exploration', note='index updates and loss of data by the system itself are not judged'),
]
