"""Writes properties.jsonl (kept as Python for readable editing)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


GEN = ['CIM14/**/*.py', 'CIM15/**/*.py']
p('C01', 'One-to-many associations stay consistent under every operation sequence',
  'After any sequence of constructions, assignments, additions and removals on objects joined by a one-to-many '
  'association, a member names an owner exactly when that owner lists the member, exactly once, and no other owner '
  'lists it. Each operation changes exactly the links it names: assigning a list makes it the whole content in the '
  'given order and takes its members away from previous owners, adding appends, removing or assigning nothing '
  'unlinks; all other links stay, in their order. Valid operations never fail.',
  ['histories'], 'Every one-to-many association of every CIM version and profile (962), on the declaring classes and '
  'every class inheriting an end, and every sequence of operations from either end.',
  'The tests exercise three associations with two or three hand-picked steps each; the guarantee is over 962 '
  'associations and all histories (moves between owners, re-assignment, duplicates, live lists).',
  GEN, [('many-side setter/add/remove', 'set*/add*/remove* of list references in every generated class, e.g. CIM15/IEC61970/Core/BaseVoltage.py'),
        ('single-side setter', 'e.g. CIM15/IEC61970/Core/VoltageLevel.py setBaseVoltage')],
  ['the two ends read through the properties after every operation'],
  [('owner list', 'members of an owner', '_<Ref> list of the owner'), ('back reference', 'owner of a member', '_<Ref> of the member')])
p('C02', 'One-to-one associations stay consistent under every operation sequence',
  'After any sequence of constructions and assignments (including of nothing) from either end of a one-to-one '
  'association, each object names a partner exactly when that partner names it. Assigning a partner releases the '
  'previous partners of both objects, assigning nothing releases exactly that pair, and all other pairs stay.',
  ['histories'], 'Every one-to-one association (150), declaring and inheriting classes, every sequence of assignments from either end.',
  'Tests cover one association and a single assignment; pair stealing, re-assignment and clearing from either end need histories.',
  GEN, [('one-to-one setters', 'set* of single references whose inverse is single, e.g. CIM15/IEC61970/Meas/MeasurementValue.py')],
  ['both ends read through the properties after every operation'])
p('C03', 'Many-to-many associations stay consistent under every operation sequence',
  'After any sequence of constructions, assignments, additions and removals on objects joined by a many-to-many '
  'association, an object lists another exactly when the other lists it, each exactly once. Each operation changes '
  'exactly the links it names (assignment gives the whole content in the given order, adding appends, removing '
  'unlinks), all other links stay in their order, and valid operations never fail.',
  ['histories'], 'Every many-to-many association (201 pairs, 402 ends), declaring and inheriting classes, every sequence of operations from either end.',
  'No test touches a many-to-many association at all.',
  GEN, [('many-to-many set/add/remove', 'e.g. CIM15/IEC61970/Wires/ACLineSegment.py CurrentTemperatureCurves')],
  ['both ends read through the properties after every operation'])
p('C04', 'An operation changes nothing but the feature it names',
  'Setting, adding to, removing from or clearing one attribute or association of an object leaves every other '
  'attribute and association of that object, of its partners and of unrelated objects as it was. Objects share no '
  'state: a value given to one object never shows up in another, and a list handed to an association stays the '
  "caller's own, so that changing it later does not change the model. An attribute or a reference without inverse "
  'reads back exactly the value last assigned.',
  ['histories'], 'Every class, every ordered pair of its features (own and inherited), with the other features unset and with all of them set.',
  'Tests look only at the association they exercise; interference shows in a different feature than the one operated on.',
  GEN, [('per-feature storage initialised in each constructor', '__init__ of every class'), ('properties', 'property(get*, set*) of every class')],
  ['all features of all objects involved, before and after every operation'])
p('C05', 'Constructor arguments equal later assignment',
  'Constructing an object with any combination of keyword arguments for its own and inherited features gives the same '
  'object, and the same links on the objects referred to, as constructing it without arguments and then assigning the '
  'values; every value, including empty and zero ones, is kept. Without arguments every feature has its documented '
  'default, lists are fresh and empty, and an argument that is no feature of the class is rejected.',
  ['inputs', 'histories'], 'Every class, every feature alone, every pair of features, all features together, with several values each.',
  'Tests construct a few classes with a few keywords; a dropped or crossed argument in any of 1676 constructors would pass.',
  GEN, [('keyword constructors chained through super()', '__init__ of every class')], ['features of the constructed object and of its partners'])
p('C06', 'Classes conform to the published information model',
  'Every class of the published models (CIM14, CIM15 and their profiles) exists with the base class, the attributes '
  '(type, default and, for enumerations, the enumeration) and the references (single or list, target, inverse) that '
  'the model gives it, and has no others. What each class declares about its attributes and references agrees with how its '
  'instances behave.',
  ['configurations'], 'Every class of the 16 packages, every feature.',
  'Tests only instantiate a handful of classes; nothing compares the classes with the model.',
  GEN + ['Model/**/*.ecore'], [('generated classes and their feature tables', '_attrs, _attr_types, _defaults, _enums, _refs, _many_refs of every class')],
  ['instances, base classes and declared tables of every class'])
p('C07', 'Each package map leads to every class of its model',
  'For every CIM version and profile, the map from class name to package contains exactly the classes of the model, '
  'and each entry names an importable package that provides the class of that name, an actual class of that model. '
  'Each version and profile publishes its own namespace URI, and reading an object of any class through the map gives an instance of that class.',
  ['configurations', 'inputs'], 'Every entry of all 16 package maps.',
  'Tests read one CIM15 file and four profile files using a small fraction of the classes.',
  ['CIM14/**/__init__.py', 'CIM15/**/__init__.py', 'PyCIM/RDFXMLReader.py'],
  [('packageMap, nsURI and the exports', '__init__.py of every package'), ('dynamic import by map', 'PyCIM/RDFXMLReader.py cimread, first pass')],
  ['import of each entry; one-object documents read with each map'])
p('C08', 'Modules can be imported in any order',
  'Any module of the library can be the first one imported in a fresh interpreter, and any further one can follow. '
  'The class obtained for a name is the same object whichever way it was reached, so that objects from different '
  'import orders work together.',
  ['schedules', 'histories'], 'Every module first; every ordered pair of packages (thorough: and of modules in import cycles).',
  'The test process imports in one order only; import cycles fail in some orders and not in others.',
  GEN + ['PyCIM/*.py'], [('import statements of packages and modules', '__init__.py and class modules')], ['import outcome in a fresh process per order'])
p('C09', 'A line segment has one per-length impedance, shown by matching views',
  'After any sequence of operations from either side, an AC line segment has at most one per-length impedance; the '
  'view for its kind and the generic view show it, the view for the other kind shows nothing. An impedance lists a '
  'segment exactly when it is that segment\'s impedance, once; constructing a segment with more than one impedance is rejected.',
  ['histories'], 'Pools of segments with phase and sequence impedances, every sequence of operations through every view and from the impedance side.',
  'Tests cover single assignments of each kind only; switching kinds, moving between impedances and clearing need histories.',
  ['CIM15/IEC61970/Wires/ACLineSegment.py', 'CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py', 'CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py'],
  [('three properties over one stored reference', 'ACLineSegment.set/getPerLengthImpedance, PhaseImpedance, SequenceImpedance')], ['all views of all segments and impedances'])
RD = ['PyCIM/RDFXMLReader.py']
p('C10', 'The model read does not depend on the order of statements',
  'Reading a document gives the same objects, attribute values and links whatever the order of the objects and of the '
  'statements within an object, so references forward, backward and to the object itself all resolve. It does not '
  'matter which end of an association states a link, or both.',
  ['inputs'], 'Every permutation of the objects of small documents and of the properties within an object, every choice of the end(s) that state each link, for every association of the models.',
  'Tests read files in one fixed order and only count objects; no value or link is compared.',
  RD, [('two passes over the document', 'cimread: first pass instantiates, second pass sets')], ['all features of all objects returned'])
p('C11', 'The model read does not depend on how the document is delivered',
  'The same document gives the same model from a path, a binary stream, a text stream, or a stream whose reads return '
  'as little as one byte at a time, cut at any positions; and its white space, attribute quoting, empty-element, '
  'CDATA, comment and character-reference spellings do not matter.',
  ['inputs', 'schedules'], 'Every split of the document into two and three deliveries at every byte, every constant read size, every source kind, every combination of equivalent spellings.',
  'Tests deliver whole files; event boundaries relative to the parser\'s chunks never vary.',
  RD, [('event-driven parsing with clearing of finished elements', 'cimread, xmlns: iterparse loops, root.clear()')], ['the returned model'])
p('C12', 'Unknown content is skipped without disturbing the rest',
  'Elements of unknown classes, unknown properties, elements of other namespaces, references to objects that are not '
  'in the document, comments and processing instructions are ignored wherever they occur. Every known object, '
  'attribute and link of the document still reads as if they were not there. A document that holds nothing of CIM reads as no '
  'objects, and leaves a given model as it is.',
  ['inputs'], 'Every kind of unknown content at every position of the document, singly and in pairs; every small document without CIM content.',
  'Tests only read clean files.',
  RD, [('lookups guarded by KeyError/hasattr, namespace filter', 'cimread')], ['the returned model compared with that of the clean document'])
p('C13', 'Attribute literals read as values of the declared type',
  'A literal for an attribute reads as the value it denotes in the attribute\'s type: strings verbatim including white '
  'space and empty ones, integers and floating-point numbers by value, booleans by their truth, and an enumeration '
  'resource as the name of the literal. The value never depends on what the attribute held before or on other attributes. '
  'An empty element is no number or truth value, and leaves the attribute as it is.',
  ['inputs'], 'Every attribute of every class with each lexical form of its type; every enumeration literal; every single Unicode character allowed in XML as a string.',
  'Tests compare no attribute value read from a document.',
  RD + GEN, [('conversion by the type of the default', 'cimread, second pass')], ['attribute values of the objects returned'])
p('C14', 'Reads are independent, and a given model is extended in place',
  'What a read returns depends only on the document and arguments of that call, never on earlier reads or on what was done with '
  'their results. When an existing model is passed in, it is extended in place and returned: its objects keep their identity, and '
  'statements about them in the new document are added to them. Reading the parts of a document one after another into one model gives the same model as '
  'reading the whole, when references point to objects of the same or an earlier part.',
  ['histories'], 'Every sequence of reads up to a bound over a set of documents and arguments; every partition of a document into consecutive parts.',
  'One test reads twice; histories mixing versions, profiles, start models and failures are not exercised.',
  RD, [('fresh result dictionary unless start_dict is given; rdf:about lookup', 'cimread')], ['returned models, identity of objects'])
p('C15', 'The CIM version is detected from the namespace, and overrides are honoured',
  'A document is read with the classes of the CIM version whose namespace it declares, whatever prefix it uses for it and whichever of its elements declare it; a CIM '
  'namespace of an unknown version is read with CIM15 classes. Passing a namespace and a package map together overrides detection '
  'with exactly those. Passing only one of them is rejected, and leaves a given start model as it was.',
  ['inputs', 'configurations'], 'Every combination of declared namespace, prefix spelling, class, and override arguments.',
  'Tests detect one version under one prefix and never pass inconsistent arguments.',
  RD, [('namespace map and version choice', 'xmlns, get_rdf_ns, get_cim_ns, cimread')], ['classes of the objects returned; exceptions'])
p('C16', 'Concurrent reads and writes do not affect each other',
  'Reads and writes of independent documents and models that run at the same time in several threads give exactly the '
  'results they give alone, whatever the interleaving.',
  ['schedules'], 'Every interleaving at source-read and line granularity of two operations within a preemption bound.',
  'Tests are single-threaded.',
  ['PyCIM/RDFXMLReader.py', 'PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py'], [('all working state is local to a call', 'cimread, cimwrite, XMLWriter instances')],
  ['results of both operations'])
p('C17', 'Truncated or failing input is reported, never returned as a model',
  'A document cut off at any byte is rejected with an error instead of being returned as a model, and an error '
  'raised by the source at any read reaches the caller. A later read of the complete document is not affected.',
  ['crash_points', 'fault_sequences'], 'Every proper prefix of the document that ends before the root element is closed; a fault at every read call, for every read size class.',
  'Tests never truncate or fail a source.',
  RD, [('parser errors and source errors propagate', 'cimread, xmlns')], ['exception or model returned; the next read'])
WR = ['PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py']
p('C18', 'Reading back a written model gives the same model',
  'Writing a model and reading the result gives objects with the same identifiers, classes, attribute values and links '
  '(list order aside), for every class and feature of every CIM version and profile. This includes lists that no single '
  'reference mirrors, and values that are empty, zero or equal to a default.',
  ['inputs', 'histories'], 'Every class with every feature set alone and all set together, several values per attribute type; every association with several links; every small link structure of each association kind.',
  'The one round-trip test counts objects; no value or link is compared and only CIM15 classes occur.',
  WR + RD + GEN, [('feature tables drive the writer', 'cimwrite'), ('reader', 'cimread')], ['all features of all objects after write and read'])
p('C19', 'Every string survives writing and reading',
  'Any string of characters that XML can carry, used as attribute value or identifier, gives a well-formed document '
  'and reads back unchanged, markup characters, quotes, white space, line ends, entity look-alikes and characters outside ASCII and the basic plane included.',
  ['inputs'], 'Every string up to a length bound over an alphabet of special characters, and every single Unicode character XML allows.',
  'Tests write one real file without special characters and compare no value.',
  WR, [('escaping', 'SimpleXMLWriter escape_cdata, escape_attrib, encode')], ['values read back; an independent XML parse of the output'])
p('C20', 'Writing is complete, repeatable and leaves the model alone',
  'Writing emits each object of the model exactly once, with its identifier and class, and all of its values and references belonging to it, and '
  'nothing of objects that are not in the model; references name identifiers. It reports success, changes no object, and writing '
  'the same model again gives the same text, whatever was written before.',
  ['inputs', 'histories'], 'Every sequence of writes over a set of models up to a bound; every class with its features set.',
  'The writer test counts the objects of one file.',
  WR, [('traversal by declared features', 'cimwrite')], ['document text and an independent parse of it; features before and after'])
p('C21', 'XML writer calls give the document they describe',
  'Any balanced sequence of writer calls (start, data, end, element, comment, declaration, close) gives a well-formed document whose elements, '
  'attributes (given either way) and text are those of the calls, in order. Ending what was not started, or under the wrong name, is rejected.',
  ['histories'], 'Every sequence of calls up to a length bound over a small alphabet of names, texts and attributes.',
  'The writer is exercised by one file through one caller, without comments, nesting checks, mixed content or keyword attributes.',
  ['PyCIM/SimpleXMLWriter.py'], [('open tag stack and buffered text', 'XMLWriter.start/data/end/element/close/comment')], ['the text written, parsed independently; exceptions'])
p('C22', 'Written files are encoded as they declare',
  'A file written under a given encoding contains bytes that decode under the encoding its declaration states to the document described; '
  'characters that the encoding lacks are written as character references, and a us-ascii document contains only ASCII. '
  'XML parsers that know the encoding can read it back, whichever of its names it was given by.',
  ['inputs', 'configurations'], 'Every encoding supported by the XML parser here (us-ascii, utf-8, iso-8859-1, utf-16, single-byte code pages), by every usual name, with every character class, to a path and to a text stream, under every locale encoding available.',
  'Tests write to an in-memory text stream in the default encoding only.',
  WR, [('encoding of the output file and of text', 'XMLWriter.__init__, declaration, encode')], ['bytes of the file; an independent parse'])
p('C23', 'Pretty printing changes white space only',
  'Pretty printing keeps every element, attribute and non-blank text, in order, and the model read from the result is the same. '
  'It puts each child element on a line of its own indented by its depth, and pretty printing the result again changes nothing.',
  ['inputs'], 'Every tree shape up to a size bound with every assignment of blank and non-blank text and tails.',
  'No test uses the pretty printer.',
  ['PyCIM/PrettyPrintXML.py'], [('recursive indentation', 'indent, xmlpp')], ['the printed text, parsed independently'])
p('C24', 'A failing output is reported and leaves the model usable',
  'When the output fails at any point of writing, the error reaches the caller and success is not reported. The model is unchanged, and '
  'writing it again to a working output gives the complete document.',
  ['fault_sequences'], 'A fault at every write and flush call of the document, for several models and error types.',
  'Tests never fail an output.',
  WR, [('write errors propagate', 'cimwrite, XMLWriter')], ['exception; features of the model; the next write'])

p('C25', 'What a read leaves out is reported',
  'Every object of an unknown class (by class and identifier), every unknown property of a known object, methods and private names of its class among them (by class and property, with '
  'how often it occurred) and every reference to an object that is not in the document (by the identifier) is reported in the log at '
  'warning level or above. Reading a document without such content reports nothing at these levels, and the reports of a read are '
  'only about that read.',
  ['inputs', 'histories'], 'Every combination of up to three pieces of unknown content; for every class unknown properties and every '
  'reference to a missing object; every sequence of up to three reads.',
  'Tests look at no log; a loss that is not reported passes all of them.',
  ['PyCIM/RDFXMLReader.py'], [('logger.error for classes and references, grouped warnings for properties', 'cimread')],
  ['records of the logging module'])
p('C26', 'Files are released and streams stay with the caller',
  'Reading, writing or pretty printing by path leaves no file open once the call has returned or its error has been handled, a file '
  'written is then complete, and a file read is unchanged. A stream passed in is never closed. Any sequence of such operations on '
  'one path sees what the operation before left.',
  ['inputs', 'crash_points', 'histories'], 'Every operation on paths and streams, every cut of the document, a failure at every object '
  'written, every sequence of operations up to a bound.',
  'Tests read and write each file once and never look at what stays open.',
  ['PyCIM/RDFXMLReader.py', 'PyCIM/SimpleXMLWriter.py', 'PyCIM/RDFXMLWriter.py', 'PyCIM/PrettyPrintXML.py'],
  [('files opened by the parser and by XMLWriter.__init__', 'iterparse, XMLWriter')], ['open files of the process, contents of files'])
p('C27', 'Results do not depend on the process',
  'Reading, writing and pretty printing give the same results (order of objects, lists and written statements included) in every '
  'process, whatever the hash seed, locale, working directory, interpreter flags, time zone and the modules imported before.',
  ['configurations'], 'A list of process configurations: hash seeds, locales with and without UTF-8 mode, interpreter flags, working '
  'directories, first imports, environment variables.',
  'All tests run in one process with one configuration.',
  ['PyCIM/*.py', 'CIM14/**/*.py', 'CIM15/**/*.py'], [('no iteration over unordered collections, explicit encodings', 'cimread, cimwrite')],
  ['results in fresh processes compared'])

p('C28', 'Reading takes memory for the model only, and nothing piles up',
  'While a document is read, the memory in use exceeds that of the model it gives by a bounded amount, however long the document is and '
  'whatever it contains besides (unknown classes and properties, foreign elements, comments, statements on known or missing objects). '
  'Once a model is dropped, its memory is free again; reading, writing, pretty printing or changing models again and again, '
  'with success or not, keeps nothing.',
  ['inputs', 'histories'], 'Documents of thousands of pieces in every sequence of kinds up to a bound, judged at every read of the stream; every kind of operation a thousand times.',
  'Tests read a few small files and never look at memory.',
  ['PyCIM/RDFXMLReader.py', 'PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py', 'PyCIM/PrettyPrintXML.py'],
  [('elements cleared after each event', 'cimread: root.clear()')],
  ['memory accounted by the interpreter at each read of the stream and after the calls'])

dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(dst, 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
