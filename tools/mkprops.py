import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech])))
IO='malstroem/io.py'; V='malstroem/vector.py'; S='malstroem/scripts'; ALG='malstroem/algorithms'
p('C01','Reported success means complete and correct outputs',
 'A malstroem command that ends with exit code 0 has written every output it was asked for, and each of them reads back complete and equal to what the same command writes on a healthy machine. This holds for rasters, GeoPackage, Shapefile, GeoJSON and CSV outputs even when reads, writes, opens or closes failed, were cut short, the device filled up, memory ran out or the process was interrupted while it ran; in those cases it either still gets everything right or ends with a nonzero exit code.',
 ['inputs','fault_sequences','configurations'],'every command and `complete`, every terrain/format/option combination, every placement of storage, allocation and interrupt faults',
 'The tests run on a healthy disk only; which of the hundreds of operations of one command fails, and how, is a space no example reaches.',
 [IO,V,S,'malstroem/dem.py','malstroem/bluespots.py'],[('RasterWriter.write and its read back',IO),('VectorWriter.write_geojson_features, temporary GeoJSON, commit, read back',IO),('vectorize_labels_file_io result check',V)],
 [('temporary GeoJSON file','features on their way into the output layer',IO),('open transaction','features not yet in the file',IO)])
p('C02','A command never damages anything but its own outputs',
 'Whatever happens to a command - success, error, interrupt, full disk, or sudden death of the process at any point - its input files, the outputs of other commands and the other layers of a GeoPackage it shares with them stay intact and readable. A command that succeeds leaves nothing behind except its declared outputs: no temporary files, no extra layers.',
 ['inputs','crash_points','fault_sequences'],'every command, every prior content of the shared datasource, every crash point and fault placement',
 'Tests write each output into a fresh directory and never kill or fail a command while other layers share its file.',
 [IO,V,S],[('open for update, else create',IO),('open for update, else create',V),('TemporaryDirectory',IO)],[('shared GeoPackage','layers of all steps and scenarios',IO)])
p('C03','After a crash, rerunning the interrupted step completes the analysis',
 'If a step dies or fails at any point, then after removing that step\'s own partial output (its file, or its layer) the same command succeeds once the faults have stopped, and the rest of the chain gives exactly the results of an undisturbed analysis. Raster outputs need not even be removed. This holds for repeated crashes and for crashes during the recovery itself.',
 ['crash_points','fault_sequences','histories'],'every step, every crash point, every sequence of crashes, failures and reruns',
 'No test kills a step, none reruns one on top of what a dead process left behind (journals, half-created layers, partial rasters).',
 [IO,V,S],[('VectorReader open',IO),('VectorWriter datasource initialisation',IO),('RasterWriter overwrites',IO)],[('rollback journal','uncommitted pages of the dead writer',IO)])
p('C04','GeoPackage layers are never partially filled',
 'In a GeoPackage, an output layer of a malstroem command holds either all of its features with all their attribute values or none, at every instant at which the process can die or fail and for every reader that looks at the file in between. A layer that was completely written by an earlier run is not altered when the same command is run again.',
 ['crash_points','fault_sequences','schedules'],'every layer-writing command, every crash point and fault, every moment of observation',
 'The tests only look at layers after the writer finished undisturbed.',
 [IO,V],[('StartTransaction / CommitTransaction',IO)],[('transaction on the layer','features written so far',IO)])
p('C05','complete never mixes with what is already in the output directory',
 'Asked to run in a directory that is not empty (any file, hidden file, sub directory or remains of a dead earlier run) `complete` refuses: it reports failure through its exit code and neither adds, changes nor removes anything. In an empty directory it leaves its own outputs only. This holds for any history of runs, crashes and failures in the same directory.',
 ['histories','crash_points','configurations'],'every prior content of the directory and every sequence of complete runs, crashes and user actions',
 'There is no test that runs complete on a non-empty directory or after a crash.',
 [S+'/complete.py'],[('outdir guard',S+'/complete.py')])
p('C06','The order of the steps does not matter, and equals complete',
 'The single commands may be run in any order that respects their documented inputs, with any number of rain scenarios interleaved and with raster steps repeated or recalculated at any time, and every output is the same as when they are run in the documented order. Rasters and GeoPackage layers equal those of one `complete` run with the same parameters.',
 ['schedules','inputs','histories'],'all topological orders of the step graph, any interleaving of scenarios, all terrains and options',
 'The tests run each tool in isolation on one small data set, in one order, and never compare the single commands with complete.',
 [S,'malstroem/dem.py','malstroem/bluespots.py','malstroem/streams.py','malstroem/rain.py','malstroem/network.py','malstroem/hyps.py','malstroem/approx.py'],
 [('commands and complete call the same algorithms with the same parameters',S)])
p('C07','Steps running at the same time do not corrupt each other',
 'Independent steps (different scenarios, or different branches of the step graph) may run as concurrent processes, also when they write layers into the same GeoPackage. Each of them either fails with a nonzero exit code or its outputs are exactly those of running alone; whatever the interleaving, outputs of finished steps stay intact and the shared GeoPackage stays valid.',
 ['schedules','inputs'],'all interleavings of the file operations of two or three concurrent commands',
 'The tests are strictly sequential.',
 [IO,V,S],[('SQLite locking under OGR transactions',IO),('private temporary directories',IO)],[('shared GeoPackage','layers and catalogue tables',IO)])
p('C08','Computations in different threads do not influence each other',
 'The algorithms and tools may be used from several threads of one process, each on its own data. However the threads are interleaved, every call returns what it returns when nothing else runs, and arguments are only modified where that is documented.',
 ['schedules','inputs'],'all line-level interleavings of two or three computations on independent data',
 'The tests are single threaded; a shared buffer, cache or global would go unnoticed.',
 [ALG,'malstroem/network.py','malstroem/hyps.py','malstroem/approx.py',IO],[('no module level state in the algorithms',ALG)],[('speedups._orig / enabled','which implementation is active',ALG+'/speedups/__init__.py')])
p('C09','Accelerated and plain implementations are interchangeable at any moment',
 'Enabling or disabling the compiled speedups, any number of times, between operations or at any moment during a running operation or by another thread, never changes a result: filled terrain, accumulated flow, watersheds, label statistics and label data are identical, and flow directions are equally steep. After disabling everything is the plain implementation again, after enabling the compiled one.',
 ['histories','schedules','inputs'],'all toggle histories and toggle moments, all terrains',
 'The tests compare both implementations on a few rasters with a fixed setting for the whole test.',
 [ALG+'/speedups',ALG+'/fill.py',ALG+'/flow.py',ALG+'/label.py'],[('enable() / disable() swap functions',ALG+'/speedups/__init__.py')],[('_orig','saved plain implementations',ALG+'/speedups/__init__.py')])
p('C10','A failed or interrupted operation leaves no residue in the process',
 'When an operation of the library raises - because of an I/O error, an exhausted device, an interrupt at any instant, or bad input - the process is as before: no temporary files, no open files or locks on its inputs and outputs once its objects are released, GDAL error handling and the choice of implementation unchanged. Repeating the operation in the same process after the cause is gone gives the correct result.',
 ['fault_sequences','histories'],'all sequences of operations with faults and interrupts at any operation or line, followed by retries',
 'The tests never make an operation fail half way and then go on in the same process.',
 [IO,V,'malstroem/streams.py','malstroem/network.py','malstroem/bluespots.py'],[('TemporaryDirectory',IO),('Push/PopErrorHandler',IO)],[('GDAL error handler stack','which handler reports errors',IO)])
p('C11','Results do not depend on the order in which features are delivered',
 'Pour points, nodes, volumes, hypsometry and water levels may be stored in any feature order: network, volumes, final state, hypsometry, levels and final bluespots computed from them are the same for every id. Ids come from the attributes of the features, never from their position.',
 ['schedules','inputs'],'all permutations of the features of every input layer',
 'The tests always read layers in the order in which malstroem wrote them.',
 ['malstroem/streams.py','malstroem/network.py','malstroem/hyps.py','malstroem/approx.py','malstroem/rain.py',ALG+'/net.py'],[('lookups by id',ALG+'/net.py')])
p('C12','What is written is what is read back, over any history',
 'For every history of writes, overwrites, reads, abandoned reads and retries after injected failures, a raster reads back with the last successfully written values, georeference, coordinate system and nodata, with nodata cells replaced exactly when a substitute is asked for, and a vector layer delivers exactly the features written to it, in order, with all attributes and geometry. A reader gives the complete contents each time it is asked, however earlier reads ended.',
 ['histories','fault_sequences','inputs'],'all operation histories over all supported data types, shapes, nodata values and formats',
 'The tests read each file once, directly after one undisturbed write, with few data types.',
 [IO],[('RasterReader.read / RasterWriter.write',IO),('VectorReader / VectorWriter',IO)],[('read position of a layer','what the next feature is',IO)])
p('C13','Spill routing is independent of order and history, and loses no water',
 'For every forest of nodes the final state is the one that independent water parcels reach when they move downstream one at a time in any order: each bluespot holds as much as reaches it up to its capacity, passes on the rest, and water in bluespots plus water leaving the roots equals the water put in. It does not depend on the order in which nodes are added or earlier rain events calculated on the same network.',
 ['schedules','histories','inputs'],'all networks, capacities and volumes, all parcel schedules, all orders of adding nodes and of events',
 'The tests use two small networks in one order, one event each.',
 ['malstroem/network.py'],[('leaves to root evaluation','malstroem/network.py')],[('_node_rain_values','state of the last event','malstroem/network.py')])
p('C14','Terrain products agree with water moving over the terrain in any order',
 'Water moved cell by cell over the terrain, in any order, ends up where the terrain products say: every cell drains off the raster along the flow directions, accumulated flow counts exactly the parcels passing a cell, watersheds tell which bluespot a parcel reaches first, water added until nothing changes any more stands at the filled level, a full bluespot overflows at its pour point, and the network connects exactly the bluespots that parcels visit one after the other.',
 ['schedules','inputs'],'all terrains (also with flats, nodata and bluespots at edges), all schedules of parcels and of relaxations, both implementations',
 'The tests compare a few hand made rasters with stored results.',
 [ALG+'/fill.py',ALG+'/flow.py',ALG+'/label.py',ALG+'/net.py','malstroem/dem.py','malstroem/bluespots.py','malstroem/streams.py'],[('fill sweeps',ALG+'/fill.py'),('D8 flow',ALG+'/flow.py'),('labels and watersheds',ALG+'/label.py'),('pour point network',ALG+'/net.py')])
p('C15','Every drop of rain is accounted for exactly once, from rain to final depths',
 'For any terrain, rain (uniform or from a raster in any unit) and sequence of scenarios on the same data, rain on the terrain equals water in bluespots plus water leaving the terrain, and the final volumes are those of rain parcels that walk the terrain in any order and stop in the first bluespot that is not full. Final levels and final rasters are consistent with these volumes: no water above the full level, no depths outside bluespots, empty and full bluespots exactly dry and full.',
 ['schedules','inputs','histories'],'all terrains, rain inputs and scenario sequences, all schedules of parcels',
 'The tests check the tools one by one against stored values; none follows the water through the whole chain.',
 ['malstroem/rain.py','malstroem/network.py','malstroem/hyps.py','malstroem/approx.py',S],[('volume tools','malstroem/rain.py'),('final state','malstroem/network.py'),('levels and depths','malstroem/approx.py')])
p('C16','Interrupting a command stops it promptly and visibly',
 'When a running command receives an interrupt at any instant, it ends within a bounded number of further file operations, with a nonzero exit code, and does not start or finish writing further outputs as if nothing had happened. It does not leave temporary files behind.',
 ['schedules','inputs'],'every instant of every command',
 'No test interrupts anything.',
 [S,IO,V],[('exceptions other than errors are not swallowed',IO)])
p('C17','Results depend on the inputs and options alone',
 'A command which succeeds on some inputs and options succeeds with exactly the same outputs wherever and whenever it is run: independent of the names and places of the data and temporary directories, of absolute or relative paths and the working directory, environment variables, umask, hash seed and random numbers, the clock and time stamps of files, how many bytes single reads and writes move, the size of GDAL\'s cache, how the input raster is stored (tiles, compression, byte order), and of unrelated files or rasters of an earlier analysis which are already there.',
 ['configurations','inputs','histories'],'every command and `complete`, all terrains, all environments of the kinds listed',
 'The tests run once, in one environment, in a temporary directory with a plain name.',
 [IO,V,S,'malstroem/dem.py','malstroem/hyps.py','malstroem/streams.py'],[('paths, temporary files, readers and writers',IO),('orders taken from sorted or insertion-ordered collections','malstroem/algorithms')])
p('C20','Bluespot filter expressions mean what they say and can run nothing else',
 'A filter expression selects exactly the bluespots whose area, depth and volume satisfy it, and text outside the small expression language is rejected.',
 ['inputs'],'all strings','The tests try a handful of expressions.',[S+'/_utils.py','malstroem/bluespots.py'],[('check_filter / parse_filter',S+'/_utils.py')])
p('C21','Hypsometry and level interpolation are monotone and bounded',
 'For a given histogram the approximated level never falls when the volume rises, and lies between the lowest cell and the full level.',
 ['inputs'],'all histograms and volumes','Stored examples only.',['malstroem/approx.py','malstroem/hyps.py'],[('histogram_bins, approx_water_level_io','malstroem/approx.py')])
p('C22','Cell coordinates map to the centre of the cell in world coordinates',
 'Point and line geometries lie at cell centres for every geotransform.',
 ['inputs'],'all geotransforms','One geotransform is tested.',[V],[('transform_cell_to_world',V)])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
