"""The properties and their checks: the source of properties.jsonl and MANIFEST.json."""
MODEL = "runtime monitor: reference-model oracle over randomly generated filings opened through the public API"
MODEL_NOTE = "Held on the executions driven: thousands of random valid filings, each compared in full with an independent model of the same filing. Trusts the generator, the renderer and the model in lib/; says nothing about constructs they do not produce (tuples, prohibited arcs, percent-encoded references)."
TREE = "Existing tests build a handful of nodes or characteristics by hand (the end-to-end tests need the network and do not run); none opens a random filing."
X = "brel/parsers/XML/"
N = "brel/parsers/XML/networks/"
PROPS = []


def P(id, title, statement, over, q, why, files, mech, at, technique=MODEL, note=MODEL_NOTE, level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, at=at, technique=technique, note=note, level=level))


P("C01", "Every reported fact is there, once, with its own value and accuracy",
  "Opening a valid XML filing yields exactly one fact per fact element of the instance (with or without an id, nil, empty or duplicated) and no others. Each fact has the concept its element names, exactly the text of its element as value, and its id, decimals and precision as written.",
  ["inputs"], "all valid XBRL 2.1 instances without tuples, any mix of namespaces, identifiers and values", TREE,
  [X + "xml_facts_parser.py", "brel/brel_fact.py", "brel/parsers/xml_filing_parser.py"],
  [("fact elements selected by namespace and contextRef, keyed in a repository", X + "xml_facts_parser.py"), ("fact repository", "brel/data/fact")],
  ["Filing.get_all_facts", "Fact accessors"])
P("C02", "A fact's entity and period are those of the context it refers to",
  "Every fact reports the entity (identifier and identifier scheme) and the period (the instant, or the start and end dates) of the context element it refers to. It has the concept, entity and period aspects, and the unit aspect exactly when it refers to a unit.",
  ["inputs"], "all valid instances with any number of contexts, entities, schemes, instants and durations, shared or not, in any order", TREE,
  [X + "xml_context_parser.py", X + "characteristics/xml_parse_entity.py", X + "characteristics/xml_parse_period.py", "brel/characteristics/period_characteristic.py", "brel/brel_context.py"],
  [("characteristics shared over a repository keyed by content", X + "characteristics/xml_parse_period.py"), ("context assembly", X + "xml_context_parser.py")],
  ["Fact.get_entity", "Fact.get_period", "Fact.get_aspects"])
P("C03", "A fact's dimensions are exactly those of its context",
  "Every fact has one explicit dimension value per explicit member and one typed dimension value per typed member that its context holds in its segment or scenario, with the dimension, member and typed value the context states, and no other dimensions. A fact is reported as core exactly when its context has no dimensions.",
  ["inputs"], "all valid instances using XBRL Dimensions 1.0 in segments and scenarios, with dimensions and members (elements of a domain item type) of any of the schemas", TREE,
  [X + "xml_context_parser.py", X + "characteristics/xml_parse_explicit_dimension.py", X + "characteristics/xml_parse_typed_dimension.py", "brel/brel_context.py"],
  [("dimension characteristics looked up by content", X + "characteristics/xml_parse_explicit_dimension.py"), ("context assembly", X + "xml_context_parser.py")],
  ["Fact.get_aspects", "Fact.get_characteristic", "Fact.is_core"])
P("C04", "A fact's unit is the unit it refers to, with all its measures",
  "Every fact that refers to a unit reports that unit's identifier and exactly its numerator and denominator measures, and a fact that refers to none reports no unit. A unit is reported as simple exactly when it consists of a single measure without denominator.",
  ["inputs"], "all valid instances with simple, multiplied and divided units over any namespaces", TREE,
  [X + "characteristics/xml_parse_unit.py", "brel/characteristics/unit_characteristic.py", X + "xml_facts_parser.py"],
  [("unit parsing and per-document lookup", X + "characteristics/xml_parse_unit.py")],
  ["Fact.get_unit"])
P("C05", "Every report element is there, once, with its kind and attributes",
  "The report elements of a filing are exactly the item and dimension declarations of its schemas, one per qualified name, each classified as concept, abstract, hypercube, dimension, line items or member. Each keeps its id, each concept its period type, balance, nillability and data type, and each dimension whether it is explicit or typed and the type of its domain.",
  ["inputs"], "all taxonomies of one or more schemas, with any names, kinds and order of declarations", TREE,
  [X + "xml_report_element_parser.py", X + "xml_report_element_factory.py", "brel/reportelements/concept.py", "brel/reportelements/dimension.py", "brel/data/report_element/report_element_repository.py"],
  [("classification by substitution group, abstractness and name", X + "xml_report_element_factory.py")],
  ["Filing.get_all_report_elements", "accessors of the report elements"])
P("C06", "Every label and reference belongs to exactly its report element",
  "Each label of the label linkbases (text, language and role) is attached to exactly the report element its arc starts from, as often as it is declared, and appears in a label network under that element. Each reference of the reference linkbases appears, with its role and all its parts, under exactly its report element.",
  ["inputs"], "all label and reference linkbases: any roles, languages, texts, sharing of locators and arcs, spread over any number of links and files", TREE,
  [N + "xml_label_network_factory.py", N + "xml_reference_network_factory.py", N + "xml_extended_link_parser.py", N + "xml_resource_parser.py", "brel/resource/brel_label.py"],
  [("labels attached when their network is built", N + "xml_label_network_factory.py")],
  ["IReportElement.get_labels", "Filing.get_all_physical_networks"])
P("C07", "Presentation networks are the declared forests, in order",
  "The presentation network of a component is exactly the forest its presentation arcs declare: the same roots, and under each node one child per arc with the arc's target, order and preferred label role (the standard label role if none is given). Children come in non-decreasing order, and a component has a presentation network exactly when arcs are declared for its role.",
  ["inputs"], "all acyclic presentation linkbases: deep, wide, several roots, equal orders, shared sub-trees, arcs spread over several links and files", TREE,
  [N + "xml_presentation_network_factory.py", N + "xml_extended_link_parser.py", "brel/parsers/utils/network_utils.py", "brel/networks/presentation_network_node.py"],
  [("extended links turned into node trees", N + "xml_extended_link_parser.py"), ("links of one role combined", "brel/parsers/utils/network_utils.py")],
  ["Component.get_presentation_network"])
P("C08", "Calculation networks are the declared forests, with weights",
  "The calculation network of a component is exactly the forest its calculation arcs declare: the same roots, and under each node one child per arc with the arc's target, order and weight. Children come in non-decreasing order, and a component has a calculation network exactly when arcs are declared for its role.",
  ["inputs"], "all acyclic calculation linkbases with any weights, orders, sharing and distribution over links and files", TREE,
  [N + "xml_calculation_network_factory.py", N + "xml_extended_link_parser.py", "brel/parsers/utils/network_utils.py", "brel/networks/calculation_network_node.py"],
  [("extended links turned into node trees", N + "xml_extended_link_parser.py"), ("links of one role combined", "brel/parsers/utils/network_utils.py")],
  ["Component.get_calculation_network"])
P("C09", "Definition networks join the dimensional arcs of a role",
  "The definition network of a component is exactly the forest that the definition arcs of its role, of all arcroles together, declare, each child with its arc's target, order and arcrole. In addition each definition link yields one physical network per arcrole it uses, holding exactly the arcs of that arcrole.",
  ["inputs"], "all acyclic definition linkbases with any mix of arcroles, orders, sharing and distribution over links and files", TREE,
  [N + "xml_definition_network_factory.py", N + "xml_extended_link_parser.py", N + "xml_networks_parser.py", "brel/parsers/utils/network_utils.py"],
  [("physical networks per arcrole, joined into one logical network", N + "xml_definition_network_factory.py")],
  ["Component.get_definition_network", "Filing.get_all_physical_networks"])
P("C10", "One component per declared role, with its definition and its networks",
  "A filing has exactly one component per role type its schemas declare, with the role's uri and definition text, whether or not networks are declared for the role. The component offers a presentation, calculation or definition network exactly when arcs of that kind are declared for its role, and those networks carry its role.",
  ["inputs"], "all sets of role types over any number of schemas, with and without networks", TREE,
  [X + "xml_component_parser.py", "brel/brel_component.py", "brel/brel_filing.py"],
  [("role types matched with networks by role", X + "xml_component_parser.py")],
  ["Filing.get_all_components", "Filing.get_component", "Component accessors"])
META = "runtime monitor: metamorphic oracle over whole-filing observations of randomly generated filings"
P("C11", "How arcs are spread over links and files does not change the report",
  "Distributing the same presentation, calculation, definition, label and reference arcs over any number of extended links, locators, linkbase files and positions leaves the components, their networks, the report elements with their labels, the facts and the errors of the filing unchanged.",
  ["inputs", "configurations"], "all acyclic networks and all partitions of their arcs into extended links and linkbase files", TREE,
  ["brel/parsers/utils/network_utils.py", N + "xml_extended_link_parser.py", N + "xml_networks_parser.py", X + "xml_component_parser.py"],
  [("the links of one role are parsed apart and combined into one network", "brel/parsers/utils/network_utils.py")],
  ["Filing.get_all_components", "Filing.get_all_report_elements", "Filing.get_all_physical_networks"], technique=META)
P("C12", "Every document of the DTS is found and read once, whatever the references",
  "Opening a filing reads every document reachable from its entry point through schema references, imports, includes, linkbase references, locators and role or arcrole references, however these are written (relative, with dots, escaped, over several paths), each exactly once, also when the references are cyclic, and reads no other document. Each reference is resolved against the document that contains it, so that files of the same name in other directories are not confused.",
  ["inputs", "configurations"], "all finite graphs of local documents with references of any kind, cycles, shared targets and equal base names", "The existing tests follow references only in one fixed directory of hand made files.",
  ["brel/services/xml/xml_service.py", "brel/services/file/file_service.py", "brel/data/xml/xml_repository.py"],
  [("recursive discovery over a repository of parsed documents", "brel/services/xml/xml_service.py")],
  ["Filing.open", "files opened (audit hook)", "Filing.get_all_report_elements"], technique="runtime monitor: audit hook recording every file the process opens, against the reference graph that was generated")
P("C13", "Filings are independent of each other and always read afresh",
  "What a filing reports depends only on its own documents as they are when it is opened: not on filings opened before or at the same time, in the same process or another, nor on earlier contents of the same files, nor on what earlier runs left in the cache. Filings already open do not change when others are opened or files are changed.",
  ["histories", "inputs"], "all sequences of opening filings, editing or replacing their files and querying any of the filings opened so far", "Tests open each filing once; whether state leaks only shows in longer histories.",
  ["brel/contexts/filing_context.py", "brel/services/xml/xml_service.py", "brel/services/file/file_service.py", "brel/brel_filing.py"],
  [("a context with its own repositories per filing", "brel/contexts/filing_context.py"), ("local files are read from disk", "brel/services/xml/xml_service.py")],
  ["Filing.open", "every query of the filings opened so far"], technique="runtime monitor: every filing of a random history compared with its model after every step")
P("C14", "The cache never serves a document that was not downloaded in full",
  "Whatever happens while a remote document is written to the cache (the process is killed at any point, the disk is full, another process or thread writes the same document), a later opening of the filing gives the same report as without the interruption. A cached document is always the complete document of its own URL.",
  ["crash points", "faults", "schedules"], "all points at which the writing of the cache can be interrupted or fail, any number of processes and threads that share a cache", "No test interrupts a write or shares the cache between processes.",
  ["brel/data/file/file_repository.py", "brel/services/file/file_service.py"],
  [("documents are written to a temporary file and renamed", "brel/services/file/file_service.py")],
  ["the cache directory", "Filing.open after the fault"], technique="fault injection at every traced system call boundary of the cache write, concurrent processes and threads, with a whole-filing oracle", level="fault_enumeration",
  note="Held at every file operation of the cache writes that were driven, and for the concurrent openings that were scheduled. Failures of hardware after a completed rename are not modelled.")
P("C15", "Remote documents: same report, fetched once, and then available offline",
  "A filing whose documents lie on a web server gives the same report as the same documents on disk. Each remote document is requested at most once and afterwards served from the cache without network. A document that cannot be had is reported as an error, what the other documents say is still reported, and the document is used as soon as it can be had.",
  ["inputs", "fault_sequences", "histories"], "all distributions of a filing over local and remote documents, all sets of documents that are unavailable or fail, all sequences of openings", "There is no network in the tests and no stub of it.",
  ["brel/services/file/file_service.py", "brel/services/xml/xml_service.py", "brel/data/file/file_repository.py", "brel/parsers/path_loaders/file_path_loader.py"],
  [("downloads through a cache keyed by URL", "brel/services/file/file_service.py")],
  ["Filing.open", "the requests the server receives", "Filing.get_all_errors"], technique="runtime monitor: logging and fault injecting local web server, with a whole-filing oracle")
P("C16", "Reports are reproducible in content and order",
  "Opening the same documents in any number of processes, whatever their hash seed, yields the same facts, report elements, labels, components, networks, node lists, languages, tables, lookups and printed output, in the same order.",
  ["inputs", "schedules"], "all filings and all hash seeds", "The tests run with one hash seed.",
  ["brel/networks/i_network.py", "brel/networks/i_network_node.py", "brel/services/xml/xml_service.py", "brel/services/report_element/report_element_service.py", "brel/parsers/path_loaders/folder_path_loader.py"],
  [("collections in document order", "brel/services/xml/xml_service.py"), ("node lists", "brel/networks/i_network.py")],
  ["every list and table a filing offers"], technique="runtime monitor: whole-report dumps of several processes with different hash seeds compared")
P("C17", "Only the information in the documents counts, not how it is written",
  "Documents with the same XML information give the same report: namespace prefixes and where they are declared, default namespaces, comments, processing instructions, whitespace, CDATA sections and character references, the encoding, the order of attributes, and the order of contexts, units, facts, links and references do not matter.",
  ["inputs"], "all filings and all equivalent ways of writing their documents", "The tests use one set of hand made files written in one style.",
  ["brel/parsers/utils/lxml_utils.py", "brel/qnames/qname_utils.py", "brel/qnames/qname.py", X + "xml_facts_parser.py", X + "xml_context_parser.py", "brel/services/xml/xml_service.py"],
  [("names compared by namespace and local name", "brel/qnames/qname.py"), ("attributes and elements looked up by namespace", "brel/parsers/utils/lxml_utils.py")],
  ["every query of a filing"], technique=META)
P("C18", "A file, a folder and an archive of the same documents are the same report",
  "A report package gives the same report whether it is opened as its instance file, as a folder in any depth or as a zip archive. All instances of a package are reported, each with its own contexts, units and facts even if they share ids, and addresses rewritten by the package's catalog lead to the package's own files, the longest matching rule first.",
  ["inputs", "configurations"], "all packages of one or more instances over a taxonomy, in any folder structure, with and without a catalog", "The tests open single files.",
  ["brel/parsers/path_loaders/folder_path_loader.py", "brel/parsers/path_loaders/zip_path_loader.py", "brel/parsers/path_loaders/file_path_loader.py", X + "xml_parse_catalog.py", "brel/brel_filing.py"],
  [("path loaders", "brel/parsers/path_loaders/folder_path_loader.py"), ("catalog", X + "xml_parse_catalog.py")],
  ["Filing.open", "every query of a filing"])
P("C19", "Lists and lookups give exactly the matching items",
  "The lists of a filing (report elements by kind, facts, core facts, reported concepts, component uris) hold exactly the matching items, each once. A name given as QName, in clark notation, as prefix and local name or as an unambiguous local name finds the one element it names, and an unknown or ambiguous name never yields another element. The facts of a concept are exactly the facts that report it, and the aspects and characteristics of a fact agree with each other.",
  ["inputs"], "all filings and all names, known, similar or unknown", "Tests look up a few names of one report.",
  ["brel/brel_filing.py", "brel/qnames/qname_search_params.py", "brel/data/report_element/report_element_repository.py", "brel/data/fact/fact_repository.py", "brel/brel_context.py"],
  [("lookups by search parameters", "brel/qnames/qname_search_params.py"), ("lists derived from repositories", "brel/brel_filing.py")],
  ["Filing.get_all_*", "Filing.get_report_element_by_name", "Filing.get_facts_by_concept", "Context.get_characteristic"])
P("C20", "A network is one consistent tree, however it is walked",
  "Walking a network from its roots, through its list of all nodes, through the descendants of a node or through its dictionary form gives the same nodes, each once and in the same structure. Every node carries the link role, link name and arc name of its network and the arc role of its arc, and yields exactly the kind of thing it points to.",
  ["inputs"], "all networks of all kinds of all filings", "Tests walk small networks built by hand.",
  ["brel/networks/i_network.py", "brel/networks/i_network_node.py", "brel/brel_component.py", N + "xml_footnote_network_factory.py"],
  [("node lists from roots", "brel/networks/i_network.py"), ("descendants", "brel/networks/i_network_node.py")],
  ["INetwork.get_roots, get_all_nodes, convert_to_dict", "INetworkNode.get_children, get_all_descendants, points_to"])
P("C21", "Facts convert to the value of their data type, or say they cannot",
  "Converting a fact yields the value its text denotes: whole numbers exactly, other numbers to the nearest float, booleans for true, false, 1 and 0. A text that does not denote a value of the requested type raises ValueError, and the text itself is always available unchanged.",
  ["inputs"], "all facts of all data types and all texts", "Tests convert two or three values.",
  ["brel/brel_fact.py"], [("conversion operators", "brel/brel_fact.py")], ["int(fact), float(fact), bool(fact), str(fact)"])
P("C22", "An inline report says the same as the report in XML",
  "A report written as inline XBRL, in one or several documents, as file, folder or archive, hidden or visible, gives exactly the facts that are tagged, with the aspects, accuracy and numeric value they have in the equivalent XML report. Its report elements, components and networks are those of its taxonomy, and no errors are reported.",
  ["inputs"], "all reports and all ways of writing them as inline XBRL without tuples and fractions", "No test opens an inline document.",
  ["brel/parsers/xhtml_filing_parser.py", "brel/parsers/XHMTL/xhtml_parse_facts.py", "brel/parsers/XHMTL/elements/parse_non_fraction.py", "brel/parsers/XHMTL/elements/parse_non_numeric.py", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"],
  [("tagged facts", "brel/parsers/XHMTL/xhtml_parse_facts.py"), ("scale, sign and format", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")],
  ["Filing.open", "every query of a filing"])
P("C23", "Displayed numbers are read as the numbers they show",
  "A number in an inline report has the value it shows to a reader under the format it is tagged with: decimal mark, grouping, units and signs in words, full width digits, zero shown as a dash, then scaled and signed as declared, without loss of digits. A text that is no number in its format is reported as an error, never as some value, and the other facts are unaffected.",
  ["inputs"], "all numeric formats of the transformation registries, all texts, scales and signs", "No test opens an inline document.",
  ["brel/parsers/XHMTL/xhtml_parse_transformation_registry.py", "brel/parsers/XHMTL/elements/parse_non_fraction.py"],
  [("numeric transformations", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"), ("scale and sign", "brel/parsers/XHMTL/elements/parse_non_fraction.py")],
  ["Filing.open", "value and accuracy of every fact", "Filing.get_all_errors"])
P("C24", "Displayed dates and fixed values are read as what they mean in every language",
  "A date, month, recurring day, duration or fixed value in an inline report has the value its format of the transformation registries gives to the displayed text, in every language, calendar and era covered there. A text that denotes no such value, or no existing day, is reported as an error and yields no fact.",
  ["inputs"], "all date and fixed value formats of the transformation registries, all days of all years, all ways of writing month names", "No test opens an inline document.",
  ["brel/parsers/XHMTL/xhtml_parse_transformation_registry.py", "brel/parsers/XHMTL/elements/parse_non_numeric.py"],
  [("date transformations", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")],
  ["Filing.open", "value of every fact", "Filing.get_all_errors"])
P("C25", "The text of an inline fact is exactly what is tagged",
  "A text fact of an inline report consists of the text between its tags and in its continuations, in their chained order, without excluded parts, comments and processing instructions and regardless of nested facts; markup is kept, as well-formed XHTML, when the fact is declared to be escaped, and dropped otherwise. A chain that is broken, circular or used twice is reported and leaves the other facts as they are.",
  ["inputs"], "all documents with nested, continued, excluded and escaped text facts", "No test opens an inline document.",
  ["brel/parsers/XHMTL/elements/parse_non_numeric.py", "brel/parsers/XHMTL/xhtml_parse_facts.py"],
  [("text of facts and continuations", "brel/parsers/XHMTL/elements/parse_non_numeric.py")],
  ["Filing.open", "value of every fact", "Filing.get_all_errors"])
P("C26", "Footnotes are attached to the facts they explain",
  "For every relationship of an inline or XML report, every fact it names is linked to every footnote or fact it names, in the network of its link role, with its arc role, in order, and with the footnote's text, language and role. Nothing else is linked. A relationship that names something missing is reported, and the other links are kept.",
  ["inputs"], "all footnotes and relationships of inline and XML reports", "One small file with footnotes is tested.",
  ["brel/parsers/XHMTL/elements/parse_resources.py", N + "xml_footnote_network_factory.py", "brel/networks/footnote_network.py"],
  [("footnote networks", N + "xml_footnote_network_factory.py")],
  ["Filing.get_all_physical_networks", "FootnoteNetworkNode.points_to", "Filing.get_all_errors"])
P("C27", "A defect of a report is reported and costs no more than what is damaged",
  "Opening a report with defective facts, contexts or units never fails. Every such defect - missing or unknown concept, context, unit, period, entity, dimension, member or measure, malformed or contradictory dates, decimals, precision, duplicate ids - is reported as an error of its documented code whose location is the defective element and whose message names the culprit, and nothing that is intact is reported as defective. A fact is left out only if it has no usable concept or context; every other fact is reported, and all of its aspects that are not damaged are exactly as declared.",
  ["inputs"], "all instances and all combinations of defects in their facts, contexts and units", "Tests cover a handful of single defects in one file.",
  [X + "xml_facts_parser.py", X + "xml_context_parser.py", X + "characteristics/xml_parse_unit.py", X + "characteristics/xml_parse_period.py", X + "characteristics/xml_parse_entity.py", "brel/errors/error_factory_registry.py", "brel/data/errors/error_repository.py"],
  [("defective facts", X + "xml_facts_parser.py"), ("defective contexts", X + "xml_context_parser.py"), ("defective units", X + "characteristics/xml_parse_unit.py")],
  ["Filing.open", "Filing.get_all_facts", "Filing.get_all_errors, get_errors", "ErrorInstance.get_full_error_code, get_context, get_message"])
P("C28", "A defect of an inline report is reported and costs no more than the damage",
  "Opening an inline report with defective tags never fails. Defects of tagged facts (name, context, unit, accuracy, sign, scale, format, escape, id, nil, negative or unreadable numbers, wrong or mixed content, nesting with a differing scale), of contexts and units, and of the header and its parts are each reported as an error of the documented code at the defective element, naming the culprit, and nothing that is intact is reported as defective. A fact is left out only if it has no usable concept or context; all other facts are reported and whatever is not damaged of them is exactly what is tagged.",
  ["inputs"], "all inline reports and all combinations of defects in their tags and headers", "No test opens an inline document.",
  ["brel/parsers/XHMTL/xhtml_parse_facts.py", "brel/parsers/XHMTL/elements/parse_non_fraction.py", "brel/parsers/XHMTL/elements/parse_non_numeric.py", "brel/parsers/XHMTL/elements/parse_header.py", "brel/parsers/XHMTL/elements/parse_hidden.py", "brel/parsers/XHMTL/elements/parse_resources.py", "brel/parsers/XHMTL/elements/parse_references.py"],
  [("tagged facts", "brel/parsers/XHMTL/xhtml_parse_facts.py"), ("numbers", "brel/parsers/XHMTL/elements/parse_non_fraction.py"), ("header", "brel/parsers/XHMTL/elements/parse_header.py")],
  ["Filing.open", "Filing.get_all_facts", "Filing.get_all_errors", "ErrorInstance.get_full_error_code, get_context, get_message"])
P("C29", "Tables say what the objects say, in the languages asked for",
  "A table of facts, core facts, components, report elements or labels has exactly one row per item, in the order of the list, and in it every aspect, characteristic, identifier and value of that item and nothing else. Headings and cells are said in the first of the languages asked for - by the call, the filing, the library, and where allowed the system and the report - in which a label or translation exists, and by name when the default is allowed; options of the call override those of the filing, and these those of the library. Without mixing, the whole table is in the first language in which all of it can be said.",
  ["inputs", "configurations", "histories"], "all filings, all label languages and all combinations of output parameters set on call, filing and library, in any order", "No test generates a table.",
  ["brel/brel_filing.py", "brel/brel_context.py", "brel/brel_fact.py", "brel/brel_component.py", "brel/services/translation/translation_service.py", "brel/config/brel_config.py", "brel/reportelements/concept.py", "brel/reportelements/dimension.py"],
  [("choice of languages", "brel/brel_filing.py"), ("labels and translations", "brel/services/translation/translation_service.py"), ("rows", "brel/brel_context.py")],
  ["Filing.generate_fact_table_pandas_df, generate_core_fact_table_pandas_df, generate_components_as_pandas_df, generate_report_elements_as_pandas_df, generate_labels_as_pandas_df", "Filing.set_filing_output_params, set_global_output_params"])
P("C30", "Calculation networks tell whether balances and sums agree",
  "is_balance_consistent is true exactly if every concept of the network has a balance and no child of the same balance as its parent has a negative weight and no child of the opposite balance a positive one. is_aggregation_consistent is true exactly if each fact of a parent concept in the given facts equals the weighted sum, in exact decimal arithmetic, of the facts of its children with the same aspects apart from the concept, for every period, entity, unit and dimension separately and at every level of the network; it says that it cannot decide (ValueError) when such a fact is missing, ambiguous or without value.",
  ["inputs"], "all calculation networks, weights, balances and sets of facts", "One small filing is tested.",
  ["brel/networks/calculation_network.py", "brel/networks/calculation_network_node.py", N + "xml_calculation_network_factory.py"],
  [("balance consistency", "brel/networks/calculation_network.py"), ("aggregation consistency", "brel/networks/calculation_network.py")],
  ["CalculationNetwork.is_balance_consistent", "CalculationNetwork.is_aggregation_consistent"])
P("C31", "A defect of a taxonomy is reported and costs no more than the damage",
  "Opening a filing with a defective taxonomy never fails. A locator to something that does not exist, a repeated arc, a link without role or of an unknown kind, a label without language, an unknown resource, a role used in a way it does not declare, a concept with an invalid period type, balance, nillable or missing type, and a typed dimension without domain are each reported as an error of the documented code at the defective element, naming the culprit. All other elements, labels, references, facts and arcs are reported as if nothing were wrong, also those below the damage.",
  ["inputs"], "all filings and all combinations of these defects in their schemas and link bases", "Tests cover a handful of single defects in one file.",
  [N + "xml_extended_link_parser.py", N + "xml_networks_parser.py", N + "xml_resource_parser.py", X + "xml_component_parser.py", X + "xml_report_element_parser.py", "brel/reportelements/concept.py"],
  [("defective links", N + "xml_extended_link_parser.py"), ("defective roles", X + "xml_component_parser.py"), ("defective declarations", "brel/reportelements/concept.py")],
  ["Filing.open", "every query of a filing", "Filing.get_all_errors", "ErrorInstance.get_full_error_code, get_context, get_message"])
P("C32", "What is printed is what is there",
  "pprint of a list of facts prints a table with one row per fact (its id, every aspect and its value; a column for every aspect that occurs, core aspects first), and of a fact all its aspects and its value. Of a network or node it prints one line per node, in order, indented below its parent, with the kind and name of its element, its weight, or the text of its resource. Of a component it prints URI, information and all its networks, whatever characters they contain, and it refuses anything else.",
  ["inputs"], "all filings and all facts, networks, nodes and components of them", "No test prints anything.",
  ["brel/utils/pprint.py", "brel/utils/print_facts.py", "brel/utils/print_networks.py", "brel/utils/print_component.py"],
  [("table of facts", "brel/utils/print_facts.py"), ("tree of nodes", "brel/utils/print_networks.py"), ("component", "brel/utils/print_component.py")],
  ["standard output of brel.utils.pprint"],
  technique="runtime monitor: captured standard output parsed back and compared with the printed objects")
P("C33", "Reading a filing changes nothing but the cache",
  "Opening and querying a filing, or failing to, leaves the documents, the working directory, the environment and the state of the process as they were: nothing is written but remote documents to the cache, temporary files and open files are gone with the filing, nothing is printed, no process is started, and the network is used only for documents that the filing refers to by http address. A document cannot make the reader include other files or fetch addresses by way of entities.",
  ["inputs", "fault_sequences"], "all filings, opened as file, folder, archive, inline document or over HTTP, and inputs that are no filing", "No test looks at side effects.",
  ["brel/services/xml/xml_service.py", "brel/data/file/pyfs_file_repository.py", "brel/data/factory.py", "brel/services/file/file_service.py", "brel/parsers/path_loaders/zip_path_loader.py"],
  [("reading documents", "brel/services/xml/xml_service.py"), ("cache", "brel/data/file/pyfs_file_repository.py"), ("archives", "brel/parsers/path_loaders/zip_path_loader.py")],
  ["Python audit events (open, os.*, socket.*, subprocess.*)", "directory trees before and after", "open descriptors", "requests received by a server", "cwd, environment, locale, decimal context, logging, signals, random state"],
  technique="runtime monitor: audit hook and before/after snapshots of files, descriptors and process state around every opening")
P("C34", "A catalog says where the addresses of a package are found",
  "When a folder or archive has a META-INF/catalog.xml, every address in its documents, and in those that they lead to, that starts with the uriStartString of a rewriteURI is looked for where its rewritePrefix says, a place relative to the catalog or a web address; the longest start wins. Addresses without an entry are fetched from the web, each document is read and fetched once however it is addressed, and nothing else is fetched. A catalog with a wrong root, a missing attribute or a repeated start is reported as such, and all other entries hold.",
  ["inputs"], "all packages and all catalogs", "Tests have no catalog.",
  ["brel/parsers/XML/xml_parse_catalog.py", "brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py", "brel/contexts/factory.py", "brel/services/xml/xml_service.py"],
  [("catalog", "brel/parsers/XML/xml_parse_catalog.py"), ("longest match", "brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py"), ("resolution", "brel/services/xml/xml_service.py: __resolve_uri")],
  ["Filing.get_all_report_elements", "requests received by a server", "Filing.get_all_errors"],
  technique="runtime monitor: reference resolver for catalogs against the elements read, the requests a server logs and the errors reported")
P("C35", "Things are equal exactly when they say the same",
  "Within a filing two aspects, values of aspects, contexts, report elements or names are equal (==, and != says the opposite) exactly when they say the same: aspects and elements by name, values by aspect and value (period by dates, entity by scheme and identifier, unit by name and measures in any order, dimension by member or typed value), contexts by all their aspects and values, names by namespace and local name whatever the prefix. Ids in documents play no role. Equal aspects and equal names have equal hashes, and comparing with anything else is False, never an error.",
  ["inputs"], "all pairs of things in all filings of one or several documents", "Tests compare no two contexts or values.",
  ["brel/brel_context.py", "brel/characteristics/unit_characteristic.py", "brel/characteristics/period_characteristic.py", "brel/characteristics/entity_characteristic.py", "brel/characteristics/brel_aspect.py", "brel/reportelements/concept.py", "brel/qnames/qname.py"],
  [("contexts", "brel/brel_context.py: __eq__"), ("values", "brel/characteristics"), ("names", "brel/qnames/qname.py")],
  ["== and != of everything a filing returns", "hash of aspects and names"],
  technique="runtime monitor: every pair compared in both directions against the content the pair stands for")
P("C36", "The filing opened from EDGAR is the one that was asked for",
  "open_edgar opens the XBRL filing of exactly the given form, and report date if given, with the latest report date among those the SEC lists for the company; of equals it takes the first in the list. The list is fetched when there is none on disk or it is older than a day, for each company separately, and however the CIK is padded. Malformed arguments are refused with ValueError before anything is requested, and so are companies, filings and documents that do not exist, and nothing but the list and the filing is ever requested.",
  ["inputs", "fault_sequences", "histories"], "all histories of calls and of lists of filings", "Tests cannot reach EDGAR.",
  ["brel/utils/edgar.py"],
  [("selection", "brel/utils/edgar.py: open_edgar"), ("list of filings", "brel/utils/edgar.py: __download_metadata_for_cik")],
  ["brel.utils.edgar.open_edgar", "requests sent by the process (a stand-in answers them)"],
  technique="runtime monitor: stand-in for the SEC servers that records every request, and a reference selection")
P("C37", "A filing that is dropped is gone, and what was taken from it stays",
  "When the last reference to a filing and to what it gave out is dropped, the filing and all its facts, contexts, elements, labels, networks, components, errors and documents are reclaimed, whatever it was opened from and whatever it was asked; and so is everything of a filing that could not be opened. A process can open any number of filings one after another with a bounded memory. Facts, elements and components that are kept say the same after their filing is gone, and other filings held at the same time are unaffected.",
  ["histories", "inputs", "fault_sequences"], "all histories of opening, querying and dropping filings in one process", "Tests drop no filing.",
  ["brel/contexts/filing_context.py", "brel/data/xml/xml_repository.py", "brel/data/factory.py", "brel/errors/error_instance.py", "brel/brel_filing.py"],
  [("per-filing state", "brel/contexts/filing_context.py: FilingContext"), ("documents", "brel/data/xml/xml_repository.py"), ("process-wide state", "brel/characteristics/brel_aspect.py, brel/config/brel_config.py")],
  ["weak references to everything a filing gave out", "live objects of the library and of lxml after collection", "the content of what is kept"],
  technique="runtime monitor: reachability of everything given out and census of live objects around every opening and dropping")
P("C38", "No filing is too large, and none blows up",
  "How much there is of something changes nothing about how it is read: filings with thousands of facts, contexts, elements, labels, footnotes and arcs, hundreds of roles, units and schemas (also in long chains of imports), dozens of dimensions per context and networks hundreds of levels deep or wide report exactly what they contain, no element, fact or text is cut, merged or lost. Texts and attributes (values, labels, definitions, footnotes, identifiers, typed members, escaped and continued inline text, embedded images, comments) may have tens of millions of characters, and markup, tuples and tagged texts may be nested hundreds of levels deep. A document whose entities multiply far beyond its own size, or refer to each other in a circle, is refused with an exception before it takes noticeable time or memory, whatever its encoding and wherever the entities are used.",
  ["inputs"], "all sizes of all parts of a filing", "Tests open small filings only.",
  ["brel/services/factory.py", "brel/services/xml/xml_service.py", "brel/parsers", "brel/data", "brel/networks"],
  [("limits of the parser", "brel/services/factory.py: parse_document"), ("documents", "brel/services/xml/xml_service.py: add_etree_recursive"), ("repositories", "brel/data")],
  ["everything a filing reports, against the reference model", "time and memory of the process"],
  technique="runtime monitor: reference model on filings grown along one axis, exact comparison of long and nested texts, resource monitor on hostile documents")
NOT_APPLICABLE = []
