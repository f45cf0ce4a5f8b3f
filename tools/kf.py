import json
F = [
('C20','bd3a0d2','sky130A: metN_label layers were named metN_pin_con and overrode the pin layers'),
('C20','285de6b','sky130A: via1_con pointed to a layer "via1" that does not exist; its resistance was ignored'),
('C06','9c3b6bf','R nodes of different nets with the same internal name were merged'),
('C18','976022b','shapes of nets without a label were dropped by the 2.5D/R engine'),
('C18','665a167','device terminals without a net aborted the extraction'),
('C18','6ab9efa','device terminals on layers that are not extracted aborted the extraction'),
('C18','c9ab855','shapes converter dropped the holes of polygons'),
('C05','5bb8197','parallel resistors between the same two nodes were added up'),
('C11','7a447e4','expanders removed devices while iterating them (use after free, devices survived)'),
('C05','a77ae6a','capacitances of the 2.5D SPICE netlist were a factor 1e15 too large'),
('C11','62432c4','a second, unconnected net VSUBS was created'),
('C01','571b334','overlap areas covered by a polygon of the same net in between were counted twice'),
('C01','ab1b3c5','layers without capacitance specification (MiM plates) aborted the extraction'),
('C14','8a72432','on a cache hit the LVSDB of the output directory was read instead of the cached one'),
('C14','9e2f04b','a stale LVSDB was used if LVS failed; torn or failed results were published in the cache'),
('C15','4f2daf4','the FastCap runner changed the working directory, later relative paths broke'),
('C12','ff8ffad','FastCap conductor names padded by blanks were not parsed'),
('C12','6092c0f','the unit of the FastCap capacitance matrix was ignored'),
('C17','4b4683c','dielectric filters were matched case-sensitively, +name alone selected nothing'),
('C16','ae8097f','boolean arguments 1/0 were rejected'),
('C16','34ad27e','an invalid --diel argument crashed instead of being reported'),
('C16','c2ba298','an unknown --cell crashed instead of being reported'),
('C21','f154319','magic log analyzer CLI ignored its documented default output path'),
('C21','44c9b95','magic .ext parser dropped net names with special characters and resistances with exponent'),
('C04','a51891d','nets of different subcircuit instances were merged by their local name'),
('C06','831ad26','vias without contact info left an empty via (layer 0) in the R extraction technology'),
('C06','f4aeb73','vias without an extracted conductor above or below (e.g. MiM caps) aborted the R extraction'),
('C07','5e08ae9','obtuse triangles were split at the wrong corner (is_skinny_tri returned a bool instead of the index)'),
('C11','3900ab3','unnamed nets were nameless in the CSV netlist of the field solver engines'),
('C11','2ad36cc','FastCap2 conductor names (name%GROUPn) were not matched to nets, the expansion aborted'),
('C11','d4b947c','reduced netlist lost capacitors (combined in series with resistors, depending on uninitialized device class IDs)'),
('C12','7a8e835','truncated solver logs were parsed into partial or garbled matrices'),
('C14','d948a38','truncated LVSDBs were silently read; LVSDBs of runs with mismatches (sky130 LVS exits with status 1) were not cached'),
('C13','4f841e1','blanks and special characters in paths or cell names were misinterpreted by Magic'),
('C13','db22744','netlist and .ext files of an earlier Magic run were reported if Magic wrote none'),
('C18','ea44b34','layouts with unconnected subcells aborted every engine (multiple top cells/circuits)'),
('C16','1df9a7d','a truncated LVSDB was used, a garbage or empty one aborted with a traceback instead of an error message'),
('C16','c8c5f89','--cell naming another cell than the top cell of the LVSDB was ignored silently'),
('C16','62ab82e','--gds with an empty path crashed the validation of the arguments'),
('C16','05669ed','a truncated, garbage or empty GDS file aborted with a traceback instead of an error message'),
('C16','f40ce51','every run crashed (KeyError) if PDKPATH is set, but PDK is not'),
('C16','91aa161','--magic without a magicrc file aborted with a traceback after the validation'),
('C11','d0fb7c7','the reduced netlist lost capacitors now and then: the undefined ID of a duplicated device class can equal the ID of a new one'),
('C08','58afca1','a model with a single net and no dielectrics had no top and side surfaces'),
('C08','c848f7c','vertical surfaces of diagonal edges were misplaced or of the wrong size (integer vectors, truncation)'),
('C08','6a26a4f','spurious dielectric interface where a dielectric of higher priority ends below a conductor while one of lower priority overlaps both'),
('C09','cbdba1e','net names with slashes, blanks or many multibyte characters broke the .lst/.geo/.stl files'),
('C10','ac38272','IHP pass2 on pass1: the metal thickness was counted twice (so air above was lost), pass2 was missing where there is no metal'),
('C10','ade9c7d','--diel all,-iox (all,-topox, all,-pass1) also dropped spnit (topnit, pass2)'),
('C19','a131c85','repair_rdb dropped or crashed on categories with quotes, backslash escapes, non-ASCII characters; missing <categories> element'),
('C20','ea77b5a','lookups pin_layer_mapping_for_drw_gds_pair, process_stack_layer_by_gds_pair, contact_above_metal_layer_name, side_overlap_cap_by_layer_names raised exceptions'),
('C20','99f5d60','sky130A: label layer of diff was the one of tap (65/5)'),
('C20','c64a14d','sky130A: via3_cap, via4_cap started at met3/met4 instead of the cap plates and were thicker than the gap they fill'),
('C21','17a7ad0','.ext nodes with fractional capacitance were lost; cells with ".ext" in their name'),
('C21','7d60b45','Magic report: coordinates truncated instead of rounded, markers of zero size lost'),
('C22','b42d134','schematic JSON: several instances of a subcircuit overwrote each other'),
('C24','7c303c0','console markup: names in brackets were dropped from messages, a net called x[/y] ended the run with a MarkupError'),
('C24','baf0067',"--log_level all showed warnings and errors only"),
('C24','4313b32','runs within one process wrote to the log files of earlier ones; logs of runs within one second overwrote each other'),
('C24','a331e14','runs ended with an exception on consoles that cannot show "Ω"; result files were read in the encoding of the locale'),
('C24','5f279bc','the last character of the output of a tool was lost if there was no line end'),
('C25','6ccab8b','lvs_layer_names.py imported a package that no longer exists; documented log level names were rejected'),
('C07','162df53','a Conductance object given for several resistors was altered by later parallel resistors of any of them'),
('C22','302b08d','netlist svg: --cell was ignored'),
]
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=os.path.join(V,'known_findings.jsonl')
known=[l for l in open(p) if json.loads(l)['status']=='known'] if os.path.exists(p) else []
with open(p,'w') as f:
    for pr,c,w in F:
        f.write(json.dumps({'property':pr,'status':'fixed','commit':c,'key':None,'what':f'fixed: property={pr} {c} {w}'})+'\n')
    for l in known: f.write(l)
