BOUND = 'Bounded: every case of the stated alphabet is executed, nothing beyond it.'
X = 'klayout_pex/'
PROPS = [
 dict(id='C01', title='2.5D overlap capacitance: every facing plate area counted once',
  statement='For every layout, the overlap capacitance reported between two nets on two layers is the area over which they face each other, not covered by any other conductor on a layer in between, times the per-area coefficient of that layer pair in the technology file; the substrate counts as the bottommost conductor. No pair without facing area is reported, a net has no capacitance to itself, and nothing is lost or counted twice.',
  over=['inputs', 'configurations'], all='all layouts of one to five rectangles on every stack of routing and MiM layers of both PDKs (all net assignments, all relative positions of an exhaustive coordinate alphabet), several database units',
  why='The tests compare 14 fixed layouts (only on sky130A) with stored CSVs; the property ranges over every arrangement of shapes, nets and layers.',
  files=[X+'rcx25/c/overlap_extractor.py', X+'rcx25/extractor.py', X+'rcx25/c/geometry_restorer.py', X+'rcx25/extraction_results.py', X+'tech_info.py'],
  mech=[('edge/polygon neighborhood visitors with shielding', X+'rcx25/c/overlap_extractor.py'), ('capacitance coefficient lookup', X+'tech_info.py')],
  observe=['overlap table of the extraction results'],
  technique='bounded exhaustive exploration of the real extractor on all layouts of a finite geometry alphabet against an independent exact reference',
  note='Exact agreement with an independently written rational-geometry reference on every enumerated layout; coefficients are read from the generated technology JSON (decided separately in C20). '+BOUND),
 dict(id='C02', title='2.5D sidewall capacitance: visible parallel edges within the halo',
  statement='For every layout, the sidewall capacitance between two different nets on a layer is the sum over all facing parallel edge intervals within the halo, with no other shape of that layer in between, of length times the layer coefficient divided by the (offset-corrected) spacing. Edges of the same net do not couple, no interval counts twice, and the value does not depend on which net is looked from.',
  over=['inputs', 'configurations'], all='all placements of up to four rectangles of one layer (every relative position and spacing of the alphabet, all net partitions), every metal of both PDKs, halos and database units',
  why='Tests sample a few parallel-wire layouts; spacing, shielding, halo limits and net partitions vary over every input.',
  files=[X+'rcx25/c/sidewall_and_fringe_extractor.py', X+'rcx25/extractor.py', X+'tech_info.py'],
  mech=[('edge neighborhood visitor', X+'rcx25/c/sidewall_and_fringe_extractor.py')], observe=['sidewall table of the extraction results'],
  technique='bounded exhaustive exploration of the real extractor on all layouts of a finite geometry alphabet against an independent exact reference',
  note='Exact agreement with an independent reference on every enumerated layout. '+BOUND),
 dict(id='C03', title='2.5D fringe capacitance: shielded, halo-limited edge-to-plate coupling',
  statement='For every layout, the fringe (side overlap) capacitance from an edge to conductors below or above (and the substrate) is the unshielded share of the arctangent field profile within the halo times edge length and the technology coefficient: shapes on layers in between and neighbours on the same layer cut it off, same-net targets do not count. With halo scaling enabled, the profile reaches 100% at the halo.',
  over=['inputs', 'configurations'], all='all placements of an edge with up to three shielding/target shapes above, below and beside, every layer pair of both PDKs, scale on/off, several halos and database units',
  why='Tests compare a few stored CSVs; shielding order, halo clipping and corner situations range over every layout.',
  files=[X+'rcx25/c/sidewall_and_fringe_extractor.py', X+'rcx25/c/polygon_utils.py', X+'rcx25/extractor.py', X+'tech_info.py'],
  mech=[('edge neighborhood visitor, near/far distances', X+'rcx25/c/sidewall_and_fringe_extractor.py')], observe=['sideoverlap table of the extraction results'],
  technique='bounded exhaustive exploration of the real extractor on all layouts of a finite geometry alphabet against an independent reference interval',
  note='Agreement with an independent reference (exact, except an interval where the outermost database unit of the halo clip is ambiguous). '+BOUND),
 dict(id='C04', title='Extracted capacitances depend on geometry and connectivity only',
  statement='Moving, rotating by 90 degrees or mirroring a layout, cutting its shapes into abutting or overlapping pieces, drawing them in another order, renaming nets, distributing shapes over a cell hierarchy, using unlabelled nets, or saving and reloading the LVS database changes no extracted capacitance (net names apart).',
  over=['inputs', 'configurations'], all='every transformation of the alphabet applied to every base layout on all layer triples and MiM stacks of both PDKs',
  why='No test compares two descriptions of the same geometry; the relation has to hold for every layout and every transformation.',
  files=[X+'rcx25/extractor.py', X+'klayout/lvsdb_extractor.py', X+'rcx25/extraction_results.py', X+'rcx25/c/geometry_restorer.py'],
  mech=[('net extraction from the LVS database', X+'klayout/lvsdb_extractor.py'), ('geometry restoration', X+'rcx25/c/geometry_restorer.py')], observe=['capacitance tables'],
  technique='bounded exhaustive exploration: the real extractor on every (layout, transformation) pair, results compared with each other',
  note='Metamorphic: decides equality of the results of the real code on equivalent descriptions. '+BOUND),
 dict(id='C05', title='2.5D outputs (summary, CSV, SPICE) agree and lose or invent nothing',
  statement='For every extraction, the value reported for a net pair is the sum of all its overlap, sidewall and fringe contributions (in fF), with each unordered pair exactly once and no self-capacitance; the CSV netlist and the SPICE netlist contain exactly these capacitors and exactly the extracted resistors, in their units, connected to the right nets, and the original devices and pins except blackboxed or whiteboxed ones as selected. Extraction mode CC reports capacitances only, R resistances only and RC both, with the same values.',
  over=['inputs', 'configurations'], all='all layouts of the alphabet x modes CC/RC/R x blackbox on/off x PDK, through the command line and read back from the written files; all combinations of table entries over a small set of net names',
  why='Tests check the CSV of CC mode on 14 layouts; the SPICE netlist, R/RC mode and the aggregation of arbitrary tables are never compared.',
  files=[X+'rcx25/extraction_results.py', X+'rcx25/netlist_expander.py', X+'kpex_cli.py', X+'rcx25/pex_mode.py'],
  mech=[('summarize', X+'rcx25/extraction_results.py'), ('netlist expansion', X+'rcx25/netlist_expander.py'), ('CSV writer', X+'kpex_cli.py')], observe=['*_k25d_pex_netlist.csv', '*_k25d_pex_netlist.spice'],
  technique='bounded exhaustive enumeration of tables and CLI runs; written files re-read and compared with an independent aggregation',
  note='Real CLI runs on every case of the alphabet, plus every table combination over a small name set. '+BOUND),
 dict(id='C06', title='Extracted resistor network reproduces each net, nets stay isolated',
  statement='For every layout, the extracted resistances of a net connect exactly its own pins, device terminals and via/junction nodes, never nodes of different nets; the effective resistance between two pins equals what sheet and via resistances of the technology give for the drawn geometry. Resistances are positive and do not depend on net names or on other nets.',
  over=['inputs', 'configurations'], all='all wires, L/T/Z shapes, rings and via chains of the alphabet (lengths, widths, all metals and vias of both PDKs), all pairs of nets',
  why='The tests contain no assertion about R values, isolation of nets or via resistances for any layout.',
  files=[X+'rcx25/r/r_extractor.py', X+'rcx25/r/resistor_network.py', X+'rcx25/r/conductance.py', X+'rcx25/extractor.py', X+'klayout/rex_core.py', X+'rcx25/extraction_results.py'],
  mech=[('R extraction', X+'rcx25/r/r_extractor.py'), ('network reduction', X+'rcx25/r/resistor_network.py')], observe=['resistances of the summary'],
  technique='bounded exhaustive exploration of the real R extractor over all layouts of the alphabet; effective resistances compared with the analytic value',
  note='Analytic resistance where it is exact (uniform wires, series/parallel via chains); elsewhere bounds and symmetry. '+BOUND),
 dict(id='C07', title='Resistor network elimination preserves the electrical behaviour',
  statement='For every resistor network (klayout_pex.rcx25.r.resistor_network), eliminating internal nodes, one by one in any order or all at once, leaves the effective resistance between every two remaining nodes unchanged, never removes a precious node, and leaves a consistent network; adding resistors in parallel, contracting two nodes and removing a node do what Kirchhoff\'s laws say. Series and parallel combination of conductances are exact. Splitting an obtuse triangle keeps its area and region.',
  over=['inputs', 'histories'], all='all graphs of up to 5 (thorough: 6) nodes with conductances of a small alphabet, all choices of kept nodes, all elimination orders; all histories of add/eliminate/contract/remove operations up to depth 3; all triangles on a 5x5 grid',
  why='The existing tests check a handful of networks; star-mesh elimination must hold for every graph and order.',
  files=[X+'rcx25/r/resistor_network.py', X+'rcx25/r/conductance.py'],
  mech=[('eliminate_node/eliminate_all/simplify', X+'rcx25/r/resistor_network.py')], observe=['ResistorNetwork to_string/ nodes'],
  technique='explicit-state exploration of the real network class: all graphs and elimination orders within the bound, against exact rational Schur complements',
  note='Exact rational oracle (Kirchhoff) for every enumerated network. '+BOUND),
 dict(id='C08', title='3D model: surfaces enclose exactly the conductors and dielectrics drawn',
  statement='For every set of conductor and dielectric volumes (polygon layers with start and end height; a conductor has priority over every dielectric, a dielectric added earlier over the ones added later, and conductors of different nets do not touch), the generated 3D model has for each net closed conductor surfaces enclosing exactly the union of its conductor volumes, and for each pair of dielectrics exactly the interface between them, each surface piece assigned to the dielectric really outside of it and oriented the right way. Nothing is missing, overlapping or left open.',
  over=['inputs', 'configurations'], all='all pairs of boxes (and a part of the triples and quadruples) of a small grid with every role, a list of polygons with diagonal edges and holes in all combinations, fractional and negative heights, triangulation settings',
  why='Tests contain a few fixed models without an oracle; closedness and assignment must hold for every geometry.',
  files=[X+'fastercap/fastercap_model_generator.py'],
  mech=[('scanline model generator', X+'fastercap/fastercap_model_generator.py')], observe=['generated triangles per material/net'],
  technique='bounded exhaustive exploration of the real model generator against a voxel oracle',
  note='Voxel oracle: surface area per (net, outside dielectric) and orientation compared exactly. '+BOUND),
 dict(id='C09', title='FasterCap/FastCap input files describe exactly the 3D model',
  statement='For every model, the written list and geometry files contain every surface triangle of the model exactly once with the right coordinates (in micrometres), conductor name, dielectric constants on the right side and a reference point on the dielectric side, every file referenced exists, and the number of the conductor is the same in all of its files. The STL dumps contain the same triangles. This holds for any net name (slashes, blanks, overlong or multibyte names), except that the conductor name itself is written as it is.',
  over=['inputs', 'configurations'], all='all combinations of the alphabets of net names, coordinates and database units, dielectrics and small models, read back by an independent parser',
  why='No test reads the files back.',
  files=[X+'fastercap/fastercap_model_generator.py'],
  mech=[('write_fastcap, dump_stl', X+'fastercap/fastercap_model_generator.py')], observe=['*.lst, *.geo, *.stl'],
  technique='bounded exhaustive exploration: every generated model written and parsed back independently',
  note='Independent reader of the FasterCap file format. '+BOUND),
 dict(id='C10', title='3D input reflects the process stack of the technology file',
  statement='For every layout and dielectric selection, the 3D input contains, per net, each extracted conductor, contact and via at the height and thickness of the technology file, the selected dielectrics of the stack with their heights, thicknesses and permittivities (field oxide below the poly, simple dielectrics between the metals, sidewall and conformal dielectrics around the metals drawn, each on top of the previous one), and the substrate as its own conductor VSUBS, which comes first; dielectrics filtered out do not appear, and do not take others with them.',
  over=['inputs', 'configurations'], all='every conductor, contact and pair of metals of both PDKs x placements x dielectric filters of the alphabet x database units x void permittivities, in process and through the command line',
  why='No test relates the 3D input to the technology file.',
  files=[X+'fastercap/fastercap_input_builder.py', X+'tech_info.py', X+'fastercap/fastercap_model_generator.py'],
  mech=[('input builder', X+'fastercap/fastercap_input_builder.py')], observe=['FasterCap_Input_Files'],
  technique='bounded exhaustive exploration of layer and filter combinations against a reference stack',
  note='Reference computed from the technology JSON. '+BOUND),
 dict(id='C11', title='Field-solver capacitance matrix maps to the right capacitors of the netlist',
  statement='For every capacitance matrix (conductors in any order, named the way FasterCap or FastCap2 name them), the expanded netlist contains between the nets of each two conductors a capacitance of the negated off-diagonal value (if positive) and from each conductor to the first one (the substrate) additionally its row sum (if positive), and no other; devices are kept when blackboxed and removed otherwise; VSUBS, GND and the ground of the solver are joined, no other nets are. A conductor that is not a net of the layout is an error. The CSV carries the same values; the reduced netlist is electrically equivalent, except for capacitances below the threshold (0.05 fF).',
  over=['inputs', 'configurations'], all='all matrices of up to 4 conductors over a value alphabet, all name orders, blackbox on/off, devices present or not',
  why='Tests run one matrix file and assert nothing about values.',
  files=[X+'klayout/netlist_expander.py', X+'klayout/netlist_csv.py', X+'klayout/netlist_reducer.py', X+'common/capacitance_matrix.py'],
  mech=[('NetlistExpander.expand', X+'klayout/netlist_expander.py')], observe=['expanded netlist, CSV, reduced netlist'],
  technique='bounded exhaustive enumeration of matrices against an independent computation',
  note='Every matrix of the alphabet. '+BOUND),
 dict(id='C12', title='Capacitance matrices survive parsing, averaging and CSV round trips',
  statement='For every solver log, the parsed matrix has the names and values (in Farad) of the last result of the log, in the right rows and columns; a log whose last result is cut off is an error or yields the last complete result, never a partial or garbled matrix; averaging replaces both off-diagonal entries by their mean and keeps the diagonal; writing a matrix as CSV and reading it back gives the same matrix.',
  over=['inputs'], all='all logs of a grammar (up to 12 conductors, all units/value formats, up to 3 iterations, surrounding output), every cut position of a log, all small matrices',
  why='Tests parse one log file per solver.',
  files=[X+'fastercap/fastercap_runner.py', X+'fastcap/fastcap_runner.py', X+'common/capacitance_matrix.py'],
  mech=[('log parsers', X+'fastercap/fastercap_runner.py'), ('CapacitanceMatrix', X+'common/capacitance_matrix.py')], observe=['matrix object, CSV'],
  technique='bounded exhaustive enumeration of synthesised solver logs and matrices',
  note='Every log of a grammar modelled after the solvers\' output formats. '+BOUND),
 dict(id='C13', title='External tools get the requested inputs; their failures are never success',
  statement='For every option setting, the field solvers, Magic and KLayout LVS are started with exactly the requested files and options, their whole output goes to the log file, and a tool that is missing, fails, is killed or yields no parsable result makes the run fail instead of reporting old or empty results.',
  over=['fault_sequences', 'configurations'], all='all combinations of tool outcomes (exit codes, signals, missing executable, truncated/absent output, pre-existing outputs) for each tool and all option combinations of the alphabet',
  why='Tests never run a failing tool.',
  files=[X+'fastercap/fastercap_runner.py', X+'fastcap/fastcap_runner.py', X+'magic/magic_runner.py', X+'klayout/lvs_runner.py', X+'kpex_cli.py'],
  mech=[('runners', X+'fastercap/fastercap_runner.py')], observe=['argv, log files, exit status'], level='fault_enumeration',
  technique='exhaustive fault enumeration with stand-in executables',
  note='Stand-in tools record argv and play every outcome of the fault alphabet. '+BOUND),
 dict(id='C14', title='LVS cache: every run extracts the current layout, at any history or crash',
  statement='After any sequence of layout edits, option changes, succeeding, failing or interrupted runs, an extraction uses an LVS database created from the current content of the given layout and cell, or fails; it never uses a result of another layout, cell, PDK or an older version, or a torn file. A complete database is used and cached even if LVS reports mismatches (exit status 1); a cached one that is newer than the layout is reused without running LVS, and with the cache disabled LVS always runs.',
  over=['histories', 'crash_points', 'fault_sequences'], all='all operation sequences up to the stated depth over edit/run/fail/crash operations on two layouts and cells, with a crash at every file operation of a run',
  why='No test runs the tool twice, let alone interrupts it.',
  files=[X+'kpex_cli.py', X+'klayout/lvs_runner.py'],
  mech=[('create_lvsdb', X+'kpex_cli.py')], observe=['extracted nets', 'cache directory'], level='model_checking',
  technique='explicit-state model checking (BFS over cache states) with every transition replayed on the real command line, including crash points',
  note='Model of the cache protocol; every explored transition is executed by the real CLI. '+BOUND),
 dict(id='C15', title='Engines are independent: results do not depend on what else runs',
  statement='The result files of each engine (2.5D, FasterCap, FastCap2, Magic) are the same whichever other engines are selected in the same run, whatever ran before in the process or output directory (including runs of other layouts, PDKs, options, and failed runs), however the output directory is given (absolute, relative, with blanks, a link, new or existing), and whatever the hash seed of the interpreter and locale; given the same layout, PDK and options.',
  over=['configurations', 'histories'], all='all subsets of engines x options x PDKs, all sequences of two (thorough: three) runs of eleven configurations in one process, several processes and several directories, all forms of output directories, hash seeds, locales',
  why='Tests run one engine per process in a fresh directory.',
  files=[X+'kpex_cli.py', X+'klayout/netlist_expander.py', X+'rcx25/netlist_expander.py', X+'fastcap/fastcap_runner.py'],
  mech=[('engine dispatch', X+'kpex_cli.py')], observe=['all output files'],
  technique='exhaustive exploration of engine subsets and run histories of the real CLI (tools replaced by stand-ins whose results are functions of everything they are given)',
  note='Output files compared byte by byte / value by value with a fresh single run. '+BOUND),
 dict(id='C16', title='Invalid command lines are rejected before any work; valid ones are obeyed',
  statement='For every combination of inputs, engines and options, a run with an invalid combination or argument terminates with a nonzero status and an error message before any extraction, leaving no result; every valid one runs exactly the selected engines on the selected input and cell with the selected parameters.',
  over=['configurations'], all='the product of input kinds, file states (valid, several top cells, truncated, garbage, empty, directory, missing), cells and engine subsets; of environments, schematics, magicrc files, KLayout executables and engines; every value of every option; every combination of the 2.5D parameters (mode, halo, scale, blackbox)',
  why='Tests use a few valid command lines only.',
  files=[X+'kpex_cli.py', X+'util/argparse_helpers.py', X+'env.py'],
  mech=[('parse_args, validate_args', X+'kpex_cli.py')], observe=['exit status, started tools, outputs'],
  technique='exhaustive enumeration of the option product against a decision table',
  note='Decision table written from the documentation; KLayout, Magic, FasterCap and FastCap are recording stand-ins. The values passed to the 3D solvers and to Magic are decided in C13; unknown dielectric names in --diel are not judged. '+BOUND),
 dict(id='C17', title='Choice filters select exactly the documented set',
  statement='For every documented filter string - all, none, all,-name[,-name...], none,+name[,+name...], +name[,+name...]; in any case, with blanks - exactly the named set is selected; all combined with none, none with -name and all with +name are rejected; and the dielectrics of the technology stack are filtered accordingly.',
  over=['inputs'], all='all filter strings of up to 4 tokens over the token alphabet, applied to all names and both technology files',
  why='Tests check three patterns.',
  files=[X+'util/multiple_choice.py', X+'tech_info.py', X+'util/argparse_helpers.py'],
  mech=[('MultipleChoicePattern', X+'util/multiple_choice.py')], observe=['is_included', 'filtered stack'],
  technique='exhaustive enumeration of filter strings against a set semantics',
  note='Every string of the bounded language. '+BOUND),
 dict(id='C18', title='LVS database extraction assigns every shape to its layer and net once',
  statement='For every LVS database, each shape of each extracted layer appears exactly once, under the right layer and net; merged layers are complete; blackboxing removes exactly the device layers it names; pins, labels and device terminals keep their names, nets and geometry; converting shapes to the exchange format and back gives the same shapes.',
  over=['inputs', 'configurations'], all='all LVS layers of both PDKs, subsets of layers, shapes with holes, hierarchies, named/unnamed nets and devices of the alphabet, blackbox on/off',
  why='Tests check one LVSDB per case for a few layers.',
  files=[X+'klayout/lvsdb_extractor.py', X+'klayout/shapes_pb2_converter.py'],
  mech=[('prepare_extraction, shapes_of_net, …', X+'klayout/lvsdb_extractor.py')], observe=['extraction context'],
  technique='bounded exhaustive exploration of LVS databases against the drawn shapes',
  note='Every database is built from known shapes. '+BOUND),
 dict(id='C19', title='Marker report shows each extracted element; repair keeps reports loadable',
  statement='For every extraction, the marker report can be loaded and contains one marker group per extracted capacitance contribution with its value, nets and layers, at its place in the layout, and (with resistance extraction) every node, resistor, pin and device terminal at its place; a report whose categories were lost is repaired to a loadable one in which every marker keeps its category path, cell and geometry, whatever characters are in the names.',
  over=['inputs', 'histories'], all='all extractions of the alphabet; all removals of category subsets from a report',
  why='Tests do not read reports.',
  files=[X+'rcx25/extraction_reporter.py', X+'klayout/repair_rdb.py'],
  mech=[('ExtractionReporter', X+'rcx25/extraction_reporter.py'), ('repair_rdb', X+'klayout/repair_rdb.py')], observe=['*.rdb.gz'],
  technique='exhaustive exploration: reports reloaded, every subset of lost categories repaired',
  note='Independent XML reader. '+BOUND),
 dict(id='C20', title='Technology files are complete, consistent and reproduce the PDK data',
  statement='For both PDKs, the generated technology file is internally consistent: every referenced layer exists, every conductor has a sheet resistance, each via fills exactly the gap between the layers it connects, every pair of conductors has overlap and side overlap coefficients plausible for their distance and dielectrics, no value is negative, records agree with the PDK layer files and reference tables, and lookups (by name, GDS number or canonical layer) return exactly the stored records for every key, in any order of use.',
  over=['inputs', 'configurations'], all='all layers, layer pairs and coefficient tables of both PDKs',
  why='Tests look up a few records.',
  files=['cxx/gen_tech_pb/protobuf.cpp', 'cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp', X+'tech_info.py'],
  mech=[('generators', 'cxx/gen_tech_pb/pdk'), ('TechInfo', X+'tech_info.py')], observe=['*_tech.pb.json', 'TechInfo lookups'],
  technique='exhaustive enumeration of every record and key against invariants and reference tables',
  note='Finite and complete: all records, all keys. '),
 dict(id='C21', title='Magic scripts mean what was asked; Magic results are read back completely',
  statement='For every layout path, cell name and directory, the generated Magic script, read by a Tcl interpreter, loads exactly that layout and cell, extracts the flattened cell and writes to exactly that directory; every port, node, device, resistor node and resistor of the .ext/.res.ext files Magic writes is read back with its names, values and coordinates, per cell, and the report shows each of them once, at its place (1 unit = 5 nm, rounded to the database unit).',
  over=['inputs', 'configurations'], all='all special characters x places x modes; all single records x field values and all record sequences up to length three of a grammar of .ext/.res.ext files, sets of up to three cells, all coordinates of a range x five database units',
  why='Tests parse one directory of results.',
  files=[X+'magic/magic_runner.py', X+'magic/magic_ext_file_parser.py', X+'magic/magic_ext_data_structures.py', X+'magic/magic_log_analyzer.py'],
  mech=[('prepare_magic_script', X+'magic/magic_runner.py'), ('parse_magic_pex_run', X+'magic/magic_ext_file_parser.py')], observe=['script file, parsed run, report'],
  technique='bounded exhaustive exploration: scripts run in a real (safe) Tcl interpreter against a model of Magic, all files of a bounded .ext grammar, reports read by an independent reader',
  note='Every setting and file of the bounded alphabet. '+BOUND),
 dict(id='C22', title='Schematic export and netlist tool keep circuits intact',
  statement='For every SPICE circuit of resistors, capacitors and subcircuit instances, the exported JSON contains each port, element and connection exactly once with its value, and nothing else but ground symbols on the ground nets: two terminals share a wire if and only if they are on the same net. The netlist tool draws exactly the requested (or the only top) circuit of the given file and ends with an error if there is none or the drawing fails.',
  over=['inputs'], all='all circuits of up to three elements over four nets and all ports, values and names of the alphabet; all files of up to three circuits x requested cells x tool outcomes, all histories of two runs',
  why='One test exports one netlist.',
  files=[X+'netlistsvg/netlist_json.py', X+'netlist/netlist_cli.py', X+'netlistsvg/netlistsvg_runner.py'],
  mech=[('NetlistJSONWriter', X+'netlistsvg/netlist_json.py')], observe=['JSON file'],
  technique='bounded exhaustive enumeration of netlists, JSON parsed back',
  note='Independent reader. '+BOUND),
 dict(id='C23', title='Layout conversion between the PDKs keeps every shape on the right layer',
  statement='For every layout whose layers identify its technology (one PDK knows more of them than the other), convert_layout_pdk.py writes, for each top cell, one flat cell with exactly its shapes and texts of all levels, each on exactly the counterpart layers of the other PDK (metals, vias, pins of the same level; labels on pin and text), and shapes of layers without counterpart on a layer of their own (number + 1000), in the same database unit; unreadable inputs and unwritable outputs end with an error and leave no result. (Layers that share their name with others are not covered.)',
  over=['inputs'], all='every layer of both layer property files, all pairs of mapped layers, all cell trees of the alphabet, file formats and database units, faulty files',
  why='There is no test of the conversion.',
  files=['convert_layout_pdk.py'],
  mech=[('map_gds_layers', 'convert_layout_pdk.py'), ('LayerMapping', 'convert_layout_pdk.py')], observe=['written layout file'],
  technique='bounded exhaustive enumeration of layouts through the real script, result compared with the layer correspondence',
  note='Independent table of counterparts. '+BOUND),
 dict(id='C24', title='Messages and tool output are shown and logged verbatim, and never disturb a run',
  statement='Every message at or above the log level, whatever characters it contains, is shown on the console and written to the log files of its run verbatim and once (one below the level not at all), as is every line that a tool prints; no message, name, console encoding or locale ends a run or changes its results; the log of a run is in its output directory, and no run changes or loses the logs of other runs.',
  over=['inputs', 'configurations', 'histories'], all='all messages up to four characters of an alphabet of markup characters x functions, all log levels x kinds of consoles, special names in every place of a run x engine, all histories of up to three runs into one directory',
  why='There is no test of logging; what breaks it are rare characters, consoles and histories.',
  files=[X+'log/logger.py', X+'kpex_cli.py'],
  mech=[('configure_logger', X+'log/logger.py'), ('setup_logging', X+'kpex_cli.py')], observe=['console output, log files, exit status, result files'],
  technique='bounded exhaustive enumeration of messages, console settings, names and run histories through the real program with stand-in tools',
  note='Every message, name and history of the bounded alphabets. '+BOUND),
 dict(id='C25', title='lvs_layer_names.py names exactly the layers of an LVS log',
  statement='For every LVS log, lvs_layer_names.py writes a script that names exactly the layers for which the log reports a number of polygons, each once and in sorted order; faulty arguments end with an error.',
  over=['inputs'], all='all logs of up to two lines (three over half of the alphabet) of reports, near misses and other lines, all numbers of layers up to 45, log levels, outputs',
  why='There is no test of this tool.',
  files=['lvs_layer_names.py'],
  mech=[('main', 'lvs_layer_names.py')], observe=['written script'],
  technique='bounded exhaustive enumeration of logs through the real script, result parsed back',
  note='Independent list of expected names. '+BOUND),
]
