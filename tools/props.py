ENG = 'abstract interpretation with value numbering over the syntax tree'

prop('M01', 'Reading a map and writing it back preserves every byte of content',
     'Whenever the reader accepts a map file, writing the resulting map produces the same header, variables, recently used textures, entities, '
     'texture slots and octree, field for field and in the same order. Content the writer cannot represent makes the write fail; it is never dropped or altered silently.',
     ['inputs'], 'all byte contents of map files that the reader accepts, all paths through optional node data',
     'The tests never read or write a map; even a round trip of sample maps leaves most optional fields, flag combinations and byte values unvisited.',
     ['redeclipse/__init__.py', 'redeclipse/entities/__init__.py', 'redeclipse/objects.py', 'redeclipse/vector/re.py', 'redeclipse/enums.py'],
     [('MapParser.read and its _load* helpers', 'redeclipse/__init__.py'), ('Map.write and its _save*/_write* helpers', 'redeclipse/__init__.py'),
      ('Entity.serialize', 'redeclipse/entities/__init__.py')],
     'reader/writer simulation on ' + ENG,
     'Sound for the modelled Python subset over all inputs up to one octree level plus induction on recursive descent; trusts the models of struct, gzip and '
     'the builtins. Data after the octree (light maps, blend map) is outside the claim; lit surfaces are refused by the code.')

prop('M02', 'The map reader follows the map format exactly',
     'The reader consumes a map file strictly front to back, without gap or overlap, in the field order, widths, repetition counts and presence conditions of '
     'the map format. A wrong file signature, an unknown map variable kind or an unknown octree node kind is rejected instead of being read past.',
     ['inputs'], 'all byte contents of map files', 'No test reads a map file; a handful of sample maps would not reach the rare slot, node and variable kinds.',
     ['redeclipse/__init__.py', 'redeclipse/objects.py', 'redeclipse/enums.py'],
     [('MapParser.read', 'redeclipse/__init__.py'), ('MapParser._loadc', 'redeclipse/__init__.py'), ('MapParser._loadvslot', 'redeclipse/__init__.py')],
     'simulation of the reader by an independent layout automaton, contiguity dataflow on read offsets (' + ENG + ')',
     'All paths of the reader; the layout description in sa/layout.py is the trusted specification.')

prop('M03', 'Every map that is built in memory is written as a complete, well-formed file',
     'Whatever entities, map variables, recently used textures and freshly made octree nodes a map holds, the file written has the layout that the reader '
     'expects: each announced count and length equals what follows. The compressed stream is completed before writing returns.',
     ['inputs', 'histories'], 'all in-memory map contents, after any change of its lists', 'No test writes a map; counts and lengths only go wrong for contents that differ from what was read.',
     ['redeclipse/__init__.py', 'redeclipse/objects.py', 'redeclipse/entities/__init__.py'],
     [('Map.write', 'redeclipse/__init__.py'), ('cube.newcube, cube.newtexcube', 'redeclipse/objects.py')],
     'simulation of the produced stream by an independent layout automaton; typestate of the output handle (' + ENG + ')',
     'All map contents of the declared types; node contents come from the two node constructors.')

prop('E01', 'Entity constructors put every argument into the right slot of the map format',
     'Every entity constructor yields an entity of its kind whose attributes are named and ordered as in the map format and carry exactly the given arguments, '
     'with the stored position four times the fine position for fine and coarse positions alike (sunlight: the given position itself). Defaults for links and reserved '
     'bytes are empty and zero and never shared between two entities.',
     ['inputs'], 'all argument values of all entity constructors', 'The tests create no entity; exact values matter for every combination of arguments.',
     ['redeclipse/entities/__init__.py', 'redeclipse/entities/weapon.py', 'redeclipse/entities/model.py', 'redeclipse/vector/__init__.py', 'redeclipse/vector/re.py'],
     [('entity constructors', 'redeclipse/entities/'), ('FineVector.fine, CoarseVector.fine', 'redeclipse/vector/__init__.py')],
     ENG + ' of every constructor, compared with an independent attribute table',
     'Exact for integer positions and attributes; the attribute table per kind is the trusted specification.')

prop('E02', 'Exporting an entity to a dictionary and importing it gives the same entity',
     'For every entity of every kind, importing its exported dictionary yields the same kind, position, attributes in order, links and reserved bytes. The '
     'exported dictionary contains only numbers, text and lists, and exporting changes nothing in the entity.',
     ['inputs'], 'all entities: all kinds, positions (fractions included) and attribute values', 'No test exports an entity; lost fractions, orders or reserved bytes show only for particular values.',
     ['redeclipse/entities/__init__.py', 'redeclipse/entities/weapon.py', 'redeclipse/entities/model.py'],
     [('Entity.to_dict', 'redeclipse/entities/__init__.py'), ('Entity.from_dict', 'redeclipse/entities/__init__.py')],
     'composition of export and import by ' + ENG, 'Exact for numeric positions and integer attributes.')

prop('G01', 'Position arithmetic is exact in fine and coarse units',
     'Adding, subtracting, scaling, dividing and flooring positions works component by component. One coarse unit is eight fine units and one fine unit four '
     'entity units; mixing fine and coarse positions yields the fine result of the same place, in either operand order; two coarse positions yield a coarse one. '
     'Conversions between units keep or floor the place exactly. Operands are never modified.',
     ['inputs'], 'all whole and half components, all operand kinds and orders', 'Tests use a few small vectors; the units must agree for every component and operand order.',
     ['redeclipse/vector/__init__.py'], [('BaseVector', 'redeclipse/vector/__init__.py'), ('FineVector', 'redeclipse/vector/__init__.py'), ('CoarseVector', 'redeclipse/vector/__init__.py')],
     'symbolic value numbering of each operation by ' + ENG, 'Exact for whole and half components; floating point rounding of large numbers is not modelled.')

prop('G02', 'Rotating a position or direction is an exact quarter turn',
     'Rotating by any multiple of 90 degrees, or to a compass direction, turns counterclockwise seen from above and keeps height, kind and half units exactly; '
     'rotating about an offset fixes that offset (position -offset is a fixed point). The named directions are the unit vectors of their names, the four compass directions are listed once each, '
     'and turning a yaw to a direction adds its degrees modulo 360.',
     ['inputs'], 'all whole and half components, all quarter turns, all offsets', 'Tests rotate a few vectors; off-by-half errors show only for particular components and turns.',
     ['redeclipse/vector/__init__.py', 'redeclipse/vector/orientations.py'],
     [('BaseVector.rotate', 'redeclipse/vector/__init__.py'), ('BaseVector.offset_rotate', 'redeclipse/vector/__init__.py'), ('rotate_yaw, get_vector_rotation, named directions', 'redeclipse/vector/orientations.py')],
     'symbolic value numbering of each turn by ' + ENG, 'Exact for components below 2^50; trusts cos and sin to be within 2^-52.')

prop('G03', 'Equality, order and hashes of positions are consistent',
     'Positions of any kinds are equal exactly when they denote the same place, and never equal to anything that is not a position; positions of one kind are totally ordered by their components '
     'with <= meaning less or equal; equal positions have equal hashes.',
     ['inputs'], 'all pairs and triples of positions', 'Consistency quantifies over pairs and triples of arbitrary positions; tests compare a handful.',
     ['redeclipse/vector/__init__.py'], [('__eq__, __lt__, __le__, __hash__', 'redeclipse/vector/__init__.py')],
     'symbolic value numbering, decision table over all relative orders of components (' + ENG + ')',
     'Complete for comparisons of components; equal positions of fine and coarse kind hash differently (known finding, pinned by the tests).')

prop('V01', 'The octree of a voxel world holds every voxel at its own place',
     'Converting a voxel world whose size is a power of two yields eight root cubes such that following the bits of x, y and z (x lowest) from the highest bit down reaches, '
     'at full depth, exactly the cube stored there; where nothing is stored an empty cube is reached. No node has a missing child, and the voxel world is unchanged.',
     ['inputs'], 'all contents of worlds of any power-of-two size', 'Tests convert small hand-made worlds; a misplaced octant shows only for particular places and sizes.',
     ['redeclipse/voxel/__init__.py', 'redeclipse/objects.py'], [('VoxelWorld.to_octree', 'redeclipse/voxel/__init__.py'), ('cube.newcube', 'redeclipse/objects.py')],
     ENG + ', induction over the size of a region', 'Sizes 2, 4, 8 (16 in the thorough tier) with unknown contents, plus the general splitting step for any size.')

prop('V02', 'The voxel world keeps the last cube stored at each place',
     'Reading a place yields the cube stored there last, or nothing if it was deleted since or never stored; storing or deleting at one place affects no other place and no other world, '
     'by coordinates and by vector alike. Storing extends the recorded bounds by exactly that place, so that they always enclose every stored voxel.',
     ['inputs', 'histories'], 'all sequences of operations on all places', 'Tests store a few points; the claim is about every history of stores and deletions.',
     ['redeclipse/voxel/__init__.py'], [('VoxelWorld.set_point, set_pointv, del_point, del_pointv, get_point', 'redeclipse/voxel/__init__.py')],
     'one-step induction by ' + ENG, 'Exact for integer places.')

prop('K01', 'Construction kit shapes cover exactly their cells, turned with the room',
     'Drawing a cube, column, dotted column, floor, ceiling, wall, low wall, ring or box through the construction kit covers exactly the cells of that shape: the shape drawn eastwards from its '
     'offset, turned by the orientation of the room about the centre of the room\'s first 8x8x8 unit, for every position and for fine and coarse offsets alike. Boxes extend from their offset by their sizes '
     '(downwards for negative sizes), columns run their length in the given direction, a dotted column shows the first `on` of every `on + off` cells, walls are the outer layer on the named side (3 high for low walls), '
     'a floor is the bottom and a ceiling the top layer of the unit, a ring the outline of a square.',
     ['inputs'], 'all positions, offsets, orientations and sizes', 'Tests draw a few shapes towards one side; off-by-one turns show only for particular orientations, sizes and offset kinds.',
     ['redeclipse/prefabs/construction_kit.py', 'redeclipse/vector/__init__.py', 'redeclipse/vector/orientations.py'],
     [('ConstructionKitMixin.x and the x_* shapes', 'redeclipse/prefabs/construction_kit.py')],
     'symbolic value numbering and interval summaries of drawing loops (' + ENG + ')',
     'Exact for integer positions and offsets; boxes and columns of any size, the other shapes for a table of sizes from 1 to 24. The unfinished line drawing shape is outside the claim.')

prop('K02', 'The construction kit stores a new textured cube, or clears, every covered cell',
     'Each covered cell receives one new solid cube of its own with the given texture (2 by default) on all six faces. With subtract, each covered cell is cleared instead. With a probability below 1 each cell is '
     'independently drawn with that probability and cleared otherwise; with 1 or more it is always drawn. No other cell is touched; room, offset and sizes are not changed; an unknown shape is refused.',
     ['inputs', 'schedules'], 'all textures, probabilities and outcomes of the random numbers', 'Whether a cell is drawn depends on random numbers; tests with a fixed seed see one outcome.',
     ['redeclipse/prefabs/construction_kit.py', 'redeclipse/objects.py'],
     [('ConstructionKitMixin.x', 'redeclipse/prefabs/construction_kit.py'), ('cube.newtexcube', 'redeclipse/objects.py')],
     'effect analysis of the drawing call (' + ENG + ')', 'Exact; random.random is trusted to be uniform in [0, 1).')

ROOMS = ['redeclipse/prefabs/__init__.py', 'redeclipse/prefabs/magica.py', 'redeclipse/prefabs/castle/__init__.py', 'redeclipse/prefabs/spacestation/__init__.py',
         'redeclipse/prefabs/egypt/__init__.py', 'redeclipse/prefabs/dungeon/__init__.py', 'redeclipse/prefabs/original/__init__.py']

prop('R01', 'Doors of every room are at its edge and turn with the room',
     'Every room class, with every combination of its flags, occupies at least one cell, lists each cell once, and has at least one door, each listed once. A door faces one of the four compass directions; the cell '
     'it opens into lies outside the room, and stepping back from there against the direction of the door leads into a cell of the room or, for voxel models, onto a cell of the room whose model reaches up to its top layer. Turning the room turns cells and doors '
     'by the same quarter turn about the cell of its position; moving the room moves them with it (voxel models with boundary additions included); asking again gives the same answer. Cells and doors are found for every voxel model on disk.',
     ['inputs'], 'all room classes, flags, orientations and positions', 'Tests build no rooms; a wrong door shows only when the generator joins rooms through it in a particular orientation.',
     ROOMS, [('Room.get_positions, Room.get_doorways', 'redeclipse/prefabs/__init__.py'), ('MagicaRoom.load_model', 'redeclipse/prefabs/magica.py')],
     ENG + ' of every room class at an unknown position', 'All classes, flags and orientations, any integer position; cells of voxel rooms follow from the corner voxels of each cell of the model files.')

prop('R02', 'Rooms draw only in the cells they occupy, the same way in every orientation',
     'Every room class can be drawn with every combination of its flags and every outcome of the random numbers, and touches only voxels inside the cells it occupies, so that rooms that do not overlap never damage '
     'each other. What a turned room draws or clears is what the eastward room draws or clears, turned about the centre of the cell of its position. This includes voxel rooms with boundary additions. '
     'Drawing a room does not change its cells or doors.',
     ['inputs', 'schedules'], 'all room classes, flags, orientations, positions and random outcomes', 'Tests draw no rooms; a stray voxel shows only for a particular class, flag, orientation and random outcome.',
     ROOMS + ['redeclipse/prefabs/construction_kit.py'], [('render of every room class', 'redeclipse/prefabs/__init__.py'), ('MagicaRoom.render', 'redeclipse/prefabs/magica.py')],
     ENG + ' of every room class at an unknown position; the cells of each construction from symbolic summaries of the construction kit',
     'All classes, flags and orientations, any integer position; random sizes by their extreme and, where few, all values. Voxel models are represented by the corner voxels of each cell.')

prop('R03', 'Entities that a room adds stand inside it and turn with it',
     'Every entity (light, pusher, model, spawn, weapon, flag) that drawing a room adds to the map lies inside the box around its cells, for every class, combination of flags, orientation, position and random outcome. '
     'A turned room adds as many entities as the eastward one, and all except lights stand at the places of the eastward room turned about the centre of the cell of its position (to within a voxel); '
     'the yaw of pushers and models turns by the same angle. Flag rooms facing different directions hold flags of different teams.',
     ['inputs', 'schedules'], 'all room classes, flags, orientations, positions and random outcomes', 'Tests draw no rooms; a misplaced pusher shows only in particular orientations.',
     ROOMS + ['redeclipse/lighting/__init__.py', 'redeclipse/entities/__init__.py'],
     [('render of every room class', 'redeclipse/prefabs/__init__.py'), ('LightManager.light', 'redeclipse/lighting/__init__.py'), ('rotate_yaw', 'redeclipse/vector/orientations.py')],
     ENG + ' of every room class at an unknown position', 'All classes, flags and orientations, any integer position. Lights only have to be inside the room.')

prop('R04', 'Voxel rooms draw their model voxel by voxel in its colours',
     'A room made from a voxel model draws one block for every voxel of the model and no other: at the voxel\'s place, moved east and north by the western and southern boundary additions, turned with the room about '
     'the centre of the cell of its position. Each block has the texture asked for with the colour that the palette of the model gives the voxel, as red, green and blue from 0 to 1. In flag rooms pure red '
     'becomes the colour of the team whose flag stands there (1 blue, 2 red, 3 yellow, 4 green); rooms with named textures of their own are exempt from the colour rule.',
     ['inputs'], 'all voxel room classes, orientations, positions and models', 'Tests draw no voxel room; swapped axes or palette slips show only for particular voxels and orientations.',
     ROOMS, [('MagicaRoom.load_model, render, render_individual_voxel, colour_to_texture', 'redeclipse/prefabs/magica.py')],
     ENG + ' of every voxel room class with a model of a few voxels', 'All classes and orientations, any integer position, one model of eight voxels and seven colours; the number of voxels of other models is not covered.')

prop('R05', 'Random options of rooms vary one flag at a time and are kept',
     'The options drawn for a room class hold one truth value per flag of the class. After a room of the same class exactly one flag differs from that room, any of them may be the one, and the previous room keeps its '
     'own flags; after a room of another class every combination can be drawn. Classes without flags get no options. A room built with flags holds exactly those, whatever its class, and leaves the class unchanged.',
     ['inputs', 'schedules'], 'all room classes, flag combinations and random outcomes', 'The flags depend on random numbers and on the previous room; tests draw none.',
     ROOMS[:2], [('Room.randOpts', 'redeclipse/prefabs/__init__.py'), ('the constructors of all room classes', 'redeclipse/prefabs/__init__.py')],
     ENG + ' of randOpts and of every constructor', 'Exact: all classes, all combinations, all outcomes (reals by one value on either side).')

UPM = ['redeclipse/upm.py', 'redeclipse/prefabs/distributions.py', 'redeclipse/prefabs/__init__.py']
MGR = 'UnusedPositionManager.'

prop('U01', 'Registering a room books exactly the cells and doors of all its copies',
     'UnusedPositionManager.register_room(room) adds one copy of the room per mirror turn (one for mirror=1, two half turns apart for 2, four quarter turns apart for 4), turned with its orientation about cell (16, 16) of the map, '
     'each with the class and flags of the room. Afterwards the occupied cells are the old ones and those of all copies, each mapped to the copy it belongs to; rooms has the copies appended; unoccupied holds the old '
     'entries whose cell no copy uses, and every door of a copy, with that copy and the direction of the door, whose cell is on the map (0..31 in each coordinate) and in use by nothing. It raises an exception exactly when a '
     'cell of a copy is occupied already or belongs to an earlier copy, and never when noclip is set. register_link(a, b) appends one pair of positions per mirror turn, turned the same way.',
     ['inputs', 'histories'], 'all positions, occupied cells and open doors before, orientations and mirror modes', 'The effect depends on what was registered before and on where the copies land; the tests register nothing.',
     UPM, [(MGR + 'register_room, register_link', 'redeclipse/upm.py')], ENG + ' of register_room on unknown positions, occupied cells and open doors',
     'Result terms are exact for all positions and occupied cells; they are compared with the definition on positions at edges, in the middle and elsewhere, with cells in use on and around the copies. Example classes in the quick tier, all in the thorough one.')

prop('U02', 'A room is accepted exactly when all its mirror copies fit',
     'preregister_room(room) is true exactly when no cell of a mirror copy is occupied, no two copies share a cell, and every cell and every door of every copy lies on the map (0..31 in each coordinate). '
     'Asking changes neither the manager nor the room. A room that was accepted can be registered without an exception.',
     ['inputs', 'histories'], 'all positions, occupied cells, orientations and mirror modes', 'Copies meet or leave the map only for particular positions and mirror modes; the tests ask for no room.',
     UPM, [(MGR + 'preregister_room, is_legal', 'redeclipse/upm.py')], ENG + ' of preregister_room on unknown positions and occupied cells',
     'Result terms are exact; compared as for U01.')

prop('U03', 'Rooms offered for a door are exactly those that join it and fit',
     'room_localization(classes, door, room, direction) offers exactly the placements of the classes, in any orientation, that preregister_room accepts and that have a door facing opposite to the direction and leading to the cell just behind '
     'the open door, so that the two doors meet; none is offered twice. An offered room carries the random options drawn for its class, and is joined by the doors it has with these options.',
     ['inputs', 'histories', 'schedules'], 'all room classes, flags, directions, places of the door and occupied cells', 'Doors that miss each other need a particular class, flag and direction; the tests look for no room.',
     UPM, [(MGR + 'room_localization', 'redeclipse/upm.py')], ENG + ' of room_localization at an unknown door, for every room class',
     'All classes, four directions; two or three flag combinations per class in the quick tier, all in the thorough one; permutations are represented by one order.')

prop('U04', 'Placing rooms tries every open door until there are enough rooms',
     'place_rooms(debug, classes, rooms=n) goes on exactly as long as fewer than n rooms are placed and a door is open. Each time it chooses an open door and looks for rooms at that door, with its room and direction; it registers one of '
     'the rooms offered, which counts once for every mirror copy, and links it to the room of the door; when nothing is offered it drops that door and no other, so that the search ends.',
     ['histories', 'schedules'], 'sequences of doors where rooms fit or not', 'Termination and counting depend on the sequence of failures; the tests place no rooms.',
     UPM, [(MGR + 'place_rooms', 'redeclipse/upm.py')], ENG + ' of the placing loop against scripted stand-ins for choosing, looking and registering',
     'Scripts with up to 40 doors: everything fits, several fit, nothing fits, doors run out, doors are blocked; mirror modes 1, 2, 4; 0 to 7 rooms.')

prop('U05', 'End caps join open doors without leaving the map or using occupied cells',
     'endcap(possible_endcaps=classes) adds, for each door that was open, a room of one of the classes with a door that meets the open door (facing opposite, leading to the cell just behind it), whose cells are on the map and were '
     'not in use, not even by an earlier cap; a door gets no cap only if no orientation of any class fits (classes with at most one door towards each side). All other occupied cells stay as they were. endcap(debug=True) puts a TestRoom into the cell of each open door, once per cell.',
     ['inputs', 'histories'], 'all places of open doors, directions and occupied cells', 'Caps that collide or stray need doors that lie close to each other or to the edge; the tests add no caps.',
     UPM, [(MGR + 'endcap', 'redeclipse/upm.py')], ENG + ' of endcap with up to two open doors at unknown places', 'Two open doors with one class of caps, one open door with two classes; unknown places and occupied cells; compared as for U01.')

prop('U06', 'Random choices of doors and rooms follow their weights',
     'weighted_choice returns each element with a probability proportional to its weight. nonrandom_position and random_position return one of the open doors (weighted by the flavour function, or evenly) and raise an exception when none is open. '
     'random_room_stream lists every offered class exactly once, whatever room came before, and lets each enter the draw in proportion to its transition probability (rounded to whole multiples of the smallest one; 0.1 for kinds of rooms that the table does not mention). '
     'The nrp_flavour functions weigh a door 1, z^5, and |x-128|^5+|y-128|^5. In every transition table all probabilities are positive, for_class and tp agree, and tables marked as mirrored apply in both directions.',
     ['inputs', 'schedules'], 'all outcomes of the random numbers, lists of weights, room kinds and tables', 'Probabilities cannot be settled by sampling a few outcomes; the tests only ask for a door when there is none.',
     UPM, [(MGR + 'weighted_choice, nonrandom_position, random_room_stream', 'redeclipse/upm.py'), ('DistributionManager', 'redeclipse/prefabs/distributions.py')], ENG + ' of the choices; shares of the random range',
     'Shares are exact for the weights tried; streams for one room of every kind and three lists of classes; all tables, all pairs.')

TEXF = ['redeclipse/textures/__init__.py', 'redeclipse/textures/basetex.py', 'redeclipse/textures/dull.py', 'redeclipse/textures/minecraft.py', 'redeclipse/textures/paper.py', 'redeclipse/textures/primary.py']

prop('T01', 'Texture ids are dense, stable and match the slots of the emitted config',
     'A texture manager answers requests by name (get), colour (get_colour, for managers of plain colours) and category (get_c) with an id: sky is 0, default is 1, each new texture gets the next number, and asking again for the same name or colour gives the same id. '
     'Different textures have different ids; an unknown name is refused with an exception. The config written by emit_conf goes next to the map, to the .mpz path with .cfg instead, '
     'and defines one slot per id in ascending order, each with the images and colour of the texture with this id. A new manager starts empty whatever earlier ones were asked for.',
     ['inputs', 'histories'], 'sequences of requests', 'Every cube refers to its texture by number; an id that is off by one shows only for the texture that was asked for late, or when two managers are used.',
     TEXF[:2], [('TextureManager.get, emit_conf', TEXF[0]), ('AutomatedMagicaTextureManager.get_colour', TEXF[0])], ENG + ' of every manager on sequences of requests, compared with the parsed config text',
     'Every manager; three orders of all its names with repetitions, 80 colours, six outcomes for each category.')

prop('T02', 'Every texture writes a complete config slot',
     'conf(idx) of each texture class that names an image gives whole lines that define exactly one slot: the diffuse image first, one line for each further image the class names (normal, specular, depth, glow) and none for images it does not have, '
     'each with the folder of the class in front, then the colour of the class if it has one. Every shader parameter has four numbers, a colour three; of a texture of a kind that declares parameters (specscale, glowcolor, parallaxscale), those it names are given with their numbers. The text ends with the end of a line, so that the next slot does not continue it.',
     ['inputs'], 'all texture classes of the package', 'A malformed slot shifts the ids of all later textures in the game; the tests parse no config.',
     TEXF, [('BaseTex and its subclasses: conf', TEXF[1])], ENG + ' of conf of every texture class, compared with the parsed statements', 'All texture classes and, for the classes they extend, textures with every choice of depth image, colour and parameters; three indices.')

prop('T03', 'Themes yield the textures they list, with equal chances',
     'get_c(category) of a themed texture manager yields the id of one of the textures that its theme lists for the category (generic, column, floor, wall, accent), each entry of the list with the same chance; any other category counts as generic. '
     'All listed names are textures of the manager. Managers of plain colours answer every category with the id of a colour whose components lie between 0 and 1.',
     ['inputs', 'schedules'], 'all themes, categories and outcomes of the random choice', 'A wrong name in a theme shows only when the random choice hits it.',
     TEXF[:1] + ['redeclipse/textures/dull_theme.py', 'redeclipse/textures/minecraft_theme.py', 'redeclipse/textures/paper_theme.py', 'redeclipse/textures/primary_theme.py'],
     [('ThemedTextureManager.get_c', TEXF[0])], ENG + ' of get_c for every outcome of the random choice', 'Every manager, category and listed texture; 66 outcomes for plain colours.')

prop('T04', 'The images a texture uses are the ones it copies, and they exist',
     'files() of each texture class lists the image files that its config names below hxr/textures, no more and no fewer, and each of them exists in the folder of the package that the class names. '
     'copy_data() copies exactly the files of the textures in use, each from its folder in the package to the same name below data/hxr/textures.',
     ['inputs'], 'all texture classes of the package', 'A missing image shows only in the game, on a map that uses that texture.', TEXF, [('BaseTex.files', TEXF[1]), ('TextureManager.copy_data', TEXF[0])],
     ENG + ' of files and copy_data; look-up of the named files in the source tree', 'All texture classes and managers.')

AEF = ['redeclipse/aftereffects.py', 'redeclipse/voxel/__init__.py', 'redeclipse/objects.py']

prop('A01', 'Decay and growth change exactly the points that the dice select',
     'decay(world, f) and growth(world, f) draw one random number of its own for every point with 0 <= x, y < size in the layers from 0 up to, but not including, world.zmax, and select the point exactly when the number is greater than f(x, y, z). '
     'Decay empties the selected points; growth puts a new solid cube of texture 2, one per point, into those that are empty. All other points, also those outside these layers or the map, keep their cube, and nothing else is added or replaced.',
     ['inputs', 'schedules'], 'worlds, position functions and outcomes of the random numbers', 'The tests count the cubes left over; whether the right ones are gone depends on the random numbers.',
     AEF, [('decay, growth', AEF[0])], ENG + ' of the effects on small worlds with chosen random numbers', 'Worlds of up to 4 by 4 by 3 points (6 by 6 by 7 in the thorough tier) filled in five ways; all comparisons of the number with the function.')

prop('A02', 'Grid, box, outline and cap effects fill exactly the points of their shape',
     'grid(world, size) puts a new cube into each empty point with 0 <= x, y < world.size in a layer below world.zmax at which at least two coordinates are multiples of size. box(world, height) puts a new cube at each point in the layers below height (default: the world size) that '
     'lies on one of the six sides of the map (a coordinate is 0 or size - 1), box_outline at each that lies on at least two sides; both replace what was there. endcap(world, upm) fills the 8 by 8 by 8 points of the cell of each open door, given as coarse or fine vector. '
     'New cubes are solid, have texture 2 and are not shared between points. No other point changes.',
     ['inputs'], 'worlds, spacings, heights and open doors', 'The tests only look at where the cubes of an empty world may be, not whether all are there or what happens to others.',
     AEF, [('grid, box, box_outline, endcap', AEF[0])], ENG + ' of the effects on small worlds', 'Worlds of side 1 to 6, spacings 1 to 5, all heights up to the side, five ways of filling; up to three open doors.')

prop('A03', 'Gradients stay within their bounds and fall with the height',
     'vertical_gradient(x, y, z) is 1 - z / slope, with slope 256 if not given. vertical_gradient2 starts at 1 for z = 0, never rises with the height, stays between 0 and 1 and is 0 at 1024; vertical_gradient2inv is 1 minus vertical_gradient2. '
     'gradient3 is 1 at z = 0 and never rises, staying above 0. None of them depends on x or y.',
     ['inputs'], 'all heights', 'Tests try two or three heights.', AEF[:1], [('vertical_gradient, vertical_gradient2, vertical_gradient2inv, gradient3', AEF[0])], ENG + ' of the functions at every height',
     'Whole heights 0 to 1024 (8192 in the thorough tier).')

VOXF = ['redeclipse/magicavoxel/writer.py', 'redeclipse/magicavoxel/reader.py', 'redeclipse/voxel/__init__.py']
prop('X01', 'Written .vox files are well formed and show the voxel world',
     'to_magicavoxel (the function and the method of VoxelWorld) writes a MagicaVoxel file of version 150: a MAIN chunk without content of its own whose children fill the rest of the file, then SIZE, XYZI and RGBA, each as long as it says. '
     'The voxels are exactly the points of the world whose three coordinates lie between 0 and 255, each once, with its own coordinates and the number of its texture plus one as colour; the stated number of voxels agrees, all lie inside the stated size, and the size is between 1 and 256 in each direction. '
     'The palette has 256 entries; entry k holds the colour of texture k of the texture manager, each part within one of 255 times the value. This is for worlds whose textures have numbers up to 254.',
     ['inputs'], 'voxel worlds and palettes', 'No test writes or reads such a file; a viewer only notices when lengths disagree.',
     [VOXF[0], VOXF[2]], [('to_magicavoxel', VOXF[0]), ('VoxelWorld.to_magicavoxel', VOXF[2])], ENG + ' of the writer on whole worlds; the bytes are taken apart by the rules of the published format',
     '14 worlds (43 in the thorough tier) with coordinates around all limits, three palettes of up to 253 colours.')

prop('X02', 'Reading a .vox file yields its size, voxels and colours',
     'Magicavoxel reads a file of the chunks MAIN, SIZE, XYZI and RGBA, in this order: model_size has the three numbers of SIZE, model_voxels the number of voxels and all voxels in their order with x, y, z and colour index c, palette.colours the 256 entries (as many as Magicavoxel.SIZE says) with r, g, b and a, all as unsigned numbers. '
     'Content of the MAIN chunk itself is skipped. Files of another kind, files without SIZE or RGBA chunk and files that end early are refused with an exception.',
     ['inputs', 'crash-points'], 'files: sizes, voxel numbers and values, lengths at which a file is cut off', 'Tests only read the models that come with the package, none of which has unusual numbers or is damaged.',
     [VOXF[1]], [('Magicavoxel', VOXF[1])], ENG + ' of the reader on files built from the published format, with stand-ins for the operations of the byte stream',
     '7 files (16 in the thorough tier), each with palettes of 256 and 255 entries; every seventh (every) length at which a file can be cut off.')

LIF = ['redeclipse/lighting/__init__.py', 'redeclipse/entities/__init__.py']
prop('L01', 'The light manager adds one light at the place, of the size and colour asked for',
     'light(xmap, position) of a light manager appends exactly one Light to the entities of the map and changes no other entity and not the position. The light lies at the position (eight voxels per coarse step), plus (4, 4, 4) voxels unless autocenter is false, '
     'times 1024 / world_size (default world_size: 128). Its radius is 64 times size_factor (default 1), its flare is 0. Its colour is colour_override if given, else the hue of the manager for the position at which the light is placed, before that scaling.',
     ['inputs'], 'positions of both kinds, sizes, colours and world sizes', 'No test adds a light.',
     LIF, [('LightManager.light, LightManager.get_light', LIF[0]), ('Light', LIF[1])], ENG + ' of light() at an unknown position', 'All positions; world sizes 64 to 1024, all combinations of the options, any size factor.')

prop('L02', 'Hues are valid colours of the set brightness and saturation, the same each time',
     'hue(position) returns three whole numbers between 0 and 255. For LightManager they are (255, 255, 255). For PositionBasedLightManager the largest is 255 times the brightness (at most 1) and the smallest that times (1 - saturation), up to rounding, '
     'for any brightness from 0 on and saturation from 0 to 1. The hue depends on the position, the brightness and the saturation only: it does not use random numbers and is the same on every call.',
     ['inputs', 'histories'], 'positions (values of the noise there), brightness, saturation and earlier calls', 'No test asks for a hue, and the noise takes extreme values only at few places.',
     LIF[:1], [('PositionBasedLightManager.hue, LightManager.hue', LIF[0])], ENG + ' of hue() with chosen values of the noise function', '200 triples of noise values between -1 and 1 (more than 5000 in the thorough tier), 8 brightnesses, 5 saturations; three calls each.')

FLF = ['redeclipse/worldflavors.py', 'redeclipse/skybox/__init__.py', 'redeclipse/__init__.py', 'redeclipse/cli/__init__.py', 'redeclipse/cli/magica_rooms.py']
prop('S01', 'Flavours add their config lines to the map, in order and once',
     'Every name in choices is a function of worldflavors that returns the same list of lines each time, each a variable and a number, no variable twice. update(world, flavors) returns the world and appends to its cfg_extra the lines of all flavours in the order given, behind the lines that are there; '
     'with no flavours (None or an empty list) it changes nothing. Flavouring one map does not affect later ones.',
     ['inputs', 'histories'], 'lists of flavours, lines that are there before, repeated updates', 'No test uses flavours.',
     FLF[:1], [('choices, update and the flavours', FLF[0])], ENG + ' of update for lists of flavours', 'All flavours; lists of up to two of them, and of all; two maps one after the other.')

prop('S02', 'A sky provides the six images that its short path stands for',
     'Setting up a sky (a subclass of Skybox) with the folder of the game copies the images of its six sides (bk, dn, ft, lf, rt, up), all of which exist in the package, each to the file data/<short path>_<side>.jpg in that folder, where <short path> is what get_short_path returns; it copies nothing else. '
     'It works whether or not the folder data/hxr/skybox exists, and creates it if not. Map.skybox(sky) sets the map variable skybox to the short path and changes no other.',
     ['inputs'], 'skies and states of the folder', 'No test sets up a sky, since this needs the folder of the game.',
     FLF[1:3], [('Skybox and its subclasses', FLF[1]), ('Map.skybox', FLF[2])], ENG + ' of the constructors with stand-ins for the file system', 'All skies of the package; folder missing or present.')

prop('O01', 'The requested output files are written, with all they need, and no others',
     'output(v, mymap, upm, prefabs, args) writes a file if and only if args names it. For mpz_out: the map is written once, under that name, with the octree of the voxel world as its world; the config file of the texture manager ends up with everything that emit_conf writes, followed by the lines of cfg_extra in order, each on a line of its own. '
     'For magica: the voxels are written once to that file, with the texture manager of prefabs. For graph: a graph is written to that file.',
     ['inputs'], 'choices of files, names, config lines', 'No test runs a command line tool up to its output.',
     FLF[3:4], [('output', FLF[3])], ENG + ' of output with stand-ins for world, map and files', 'All 16 choices of files with four names, four lists of lines.')

prop('O02', 'The graph shows every room once and every link between its rooms',
     'The JSON graph that output writes has one node for every room of the position manager, with the name of the room as name and label, and one more node for the void. Node ids differ. For every link of the position manager, in order, it has one link from the node of the room in the first cell to the node of the room in the second; '
     'a cell in which there is no room counts as the void, so that every link ends at nodes of the graph.',
     ['inputs'], 'sets of rooms, the cells they occupy and links', 'No test writes a graph.',
     FLF[3:4], [('output', FLF[3])], ENG + ' of output with chosen rooms and links', 'Eight sets of up to three rooms, with large rooms, links into the void, double links and equal names.')

prop('D01', 'The same seed, options and map give the same world in every run and process',
     'Two runs of main of magica_rooms with the same options, the same seed and the same input map give the same rooms in the same order (class, position, orientation, flags), the same links, the same voxels, the same entities in the same order and the same config lines. '
     'Nothing else has a part in it: not the clock, the process, the computer, the addresses or hashes of objects, the hash seed of Python (the order of sets of texts or classes), the order of the files in a directory, or the state of the random numbers before the run. '
     'A run in the same process after other runs gives the same as well, up to the running numbers of textures and cubes. The same holds for any single room: drawn again from the same state of the random numbers, its random options, voxels and entities are the same.',
     ['inputs', 'histories'], 'surroundings of a run: clock, process, hash seed, addresses, earlier runs in the process', 'A test compares runs in one process at one time at best, where addresses, hash seed and directory order happen to agree.',
     [FLF[4]] + ['redeclipse/upm.py', 'redeclipse/prefabs/__init__.py', 'redeclipse/prefabs/magica.py', 'redeclipse/worldflavors.py'], [('main', FLF[4]), ('randOpts', 'redeclipse/prefabs/__init__.py')],
     'Relational abstract evaluation: ' + ENG + ' twice, with two models of everything that the language and the system leave open (clock, ids, hashes, order of sets, directory order, sources of entropy, state of the random numbers before the seeding), and again after another run in the same heap; the two results are compared part by part, and a difference is reported with the place that asks for the source',
     'Two option sets in the quick tier and five in the thorough one, and each of the room classes by itself (two rooms, with options drawn after another class and after the same class), each in other surroundings and after earlier runs; the models of the rooms are thinned out to two voxels per tile.')
prop('O03', 'The generator seeds, reads, places, caps and draws every room, in this order',
     'main of magica_rooms seeds the random numbers once with the given seed (default 42), before any random number is drawn and any room is placed. It reads the given map, applies the given flavours to it, and makes one position manager with the given size (default 256) and mirror mode (default 2). '
     'It registers one starting room at STARTING_POSITION that faces east, a flag room if and only if ctf is set, then places the given number of rooms (default 200, a text counts as its number), then closes the open doors, passing debug on to both steps. '
     'Afterwards every room of the position manager is drawn exactly once, in order, into the one voxel world (of the given size) and map that it returns along with the position manager. The map keeps its entities and gets one Sunlight.',
     ['inputs'], 'all options of the generator', 'No test runs the generator.',
     FLF[4:5], [('main', FLF[4])], ENG + ' of main with stand-ins for the parts that other properties cover', 'All combinations of mirror mode, ctf, flavours and debug with three choices of size, seed and number of rooms.')

prop('N01', 'Every name, attribute, import and call in the package refers to something there',
     'In every module, function and branch of the package, the command line tools included: a name that is read is defined (in a function around it, in the module, or built in). What is imported from a module of the package or of the standard library exists there. '
     'An attribute read from a module, from a class of the package, from self or cls, or from an object that the function has just made exists in it, in a class that inherits from it or in an assignment somewhere in the package; an attribute read from any other object exists at least somewhere in the package or in the built-in types. '
     'A call of a function or class of the package that is reached by its name, by an imported module, by self, cls or super, or by an object that the function has just made gives the arguments that it takes: none missing, none too many, no unknown or double keyword. '
     'The result of a function that returns nothing is not used as a value that is read, gone through or unpacked. A local variable is not read where no way through the function has assigned it. No run can thus end in a NameError, ImportError, AttributeError, TypeError or UnboundLocalError for one of these reasons, '
     'except where the code itself allows for that (hasattr, getattr, except).',
     ['inputs'], 'all branches of all functions of the package', 'A name or call in a branch, room or tool that no test gets to is never tried; most rooms and all command line tools are never run by a test.',
     ['redeclipse'], [('package', 'redeclipse/__init__.py'), ('command line tools', 'redeclipse/cli')],
     'Name binding and signature analysis of the syntax trees: scopes, module tables, class tables with inheritance, and signatures; every use is resolved against them',
     'All modules of the package. Objects of unknown class are checked against all names known anywhere; calls of methods on them only when no method of that name in the package takes the arguments.')

prop('C01', 'Exported maps hold every part of the map and survive an import',
     'to_dict of a map holds its magic text, version, header size, the header fields and the map variables in their order (texts as texts; bytes that are not UTF-8 as lone surrogates), the recently used textures, the dictionaries of its entities, its octree '
     '(for every cube, in order: shape, edges, texture numbers, material, surface mask, number of vertices, children, and where it has any the surface of each face or null; for a cube without entry {}), its texture slots and the list of changed slots, and only values that JSON can represent. to_json is the JSON of it. '
     'from_dict of what was read back from this JSON gives a map with the same contents except for the octree, which is not imported: exported again it gives the same, its variables have the same names and values as bytes, and apart from the octree it is written with the same bytes. '
     'The to_json tool prints the JSON of the whole map or just of the section asked for; the from_json tool writes the imported map once, to the file given.',
     ['inputs', 'histories'], 'maps: header fields, variables, texts, entities of all types, slots, octrees', 'The tests export one map of the game, which has few kinds of variables, and never import one.',
     ['redeclipse/__init__.py', 'redeclipse/objects.py', 'redeclipse/entities', 'redeclipse/cli/to_json.py', 'redeclipse/cli/from_json.py'],
     [('Map.to_dict, Map.to_json, Map.from_dict', 'redeclipse/__init__.py'), ('cube.to_dict, cubext.to_dict, VSlot.to_dict, VSlot.from_dict', 'redeclipse/objects.py'), ('main', 'redeclipse/cli/to_json.py'), ('main', 'redeclipse/cli/from_json.py')],
     ENG + ' of export, import, export and writing of maps with symbolic numbers, with stand-ins for the JSON modules',
     'Five maps that have every kind of entity, variable, slot and cube between them, with unknown numbers; all sections of the to_json tool.')

REF_ = 'redeclipse/vector/re.py'
prop('G04', 'The vectors of the game engine compute exactly, truncating whole ones to zero',
     'X, Y and Z of ivec2 and ivec3 are the components cut off towards zero, those of vec2 and vec3 the components as floats; to_dict lists them in order. For ivec3 with whole components add, sub, mul, shl, mask, dot and cross '
     'are the sum, the difference, the multiple, the shift by a number of bits, the bitwise and with a mask of each component, the scalar product and the cross product; cross of two vec3 is a vec3. gg(0), gg(1), gg(2) are x, y, z. iszero holds exactly if all components are zero. '
     'ivec5(i, x, y, z, s) is the corner of the i-th child cube of size s at x, y, z: bit 0 of i stands for x, bit 1 for y, bit 2 for z. No operation changes its operands.',
     ['inputs'], 'all whole components; child numbers; fractional components of both signs', 'The tests have one small vector of each kind, positive only, and one cross product.',
     [REF_], [('ivec2, vec2, ivec3, vec3, cross', REF_)], 'symbolic value numbering of each operation by ' + ENG, 'Exact for whole components; truncation, masks and iszero for chosen numbers, shifts for six widths.')

prop('G05', 'Cubes are made, filled and measured as the game engine does',
     'newcube gives a cube without children and extension whose three faces are those asked for (empty by default) and whose six textures are the default geometry. newtexcube gives a solid cube with the texture number on all six sides, or with the six numbers given in order, octsav 35, surfmask 63 and six surfaces of its own with lmid (2, 0), verts 0 and numverts 32. '
     'newcubes gives eight different new cubes. set_solid, set_empty and emptyfaces make all faces solid or empty. Every new cube has an id of its own, larger than those before; no two cubes share faces, edges, texture lists or extensions. '
     'genfaceverts(f) gives the four corners of face f (0 and 1: low and high x, 2 and 3: y, 4 and 5: z) in the order of the engine; each coordinate of a corner is the low half of the edge along it at its low end and the high half at its high end, where the edges along x are 0 to 3 (2z + y), those along y 4 to 7 (4 + 2x + z) and those along z 8 to 11 (8 + 2y + x). '
     'totalverts of a surface is the low four bits of numverts, doubled if bit 7 is set. dimension, dimcoord and opposite of face f are f // 2, f % 2 and the face on the other side. newcubeext keeps the extension if it has room for the number of vertices, and else makes one that has.',
     ['inputs', 'histories'], 'edges, faces, textures, surfaces and orders of making cubes', 'Tests build a few cubes and compare none of their faces, corners or surfaces.',
     ['redeclipse/objects.py'], [('cube.newcube, cube.newtexcube, cube.newcubes, cube.genfaceverts, cube.newcubeext', 'redeclipse/objects.py'), ('SurfaceInfo.totalverts', 'redeclipse/objects.py')],
     ENG + ' of the constructors, fills and corners', 'All faces with six sets of edges, all values of numverts, unknown texture numbers.')

prop('I01', 'The map tools read, change and write the maps they are given',
     'iso, perlin and snow_forest read the map given as input, once, and write it, once and as their last step, to the file given as output, with the entities that it had in front. iso changes nothing in between. perlin and snow_forest write it with the octree of the one voxel world that they build, made after the last cube is placed; '
     'all cubes are at whole places inside that world and every column has ground. perlin adds no entities; those that snow_forest adds (models and spawns) stand in a column of the world, away from its border on top of the ground of that column (models up to 1.25 below). '
     'main of cli/rooms seeds the random numbers once, first, with the given seed (default 42), reads the given map, registers a SpawnRoom at STARTING_POSITION that faces east in a position manager of the given size (default 128), places the given number of rooms (default 200), closes the open doors (debug passed on), draws every room once, in order, '
     'writes the config and the images for the output file, the voxels to the .vox file if one is given, and the map with its entities, one Sunlight and the octree of that world to the output file. '
     'Run as scripts, magica_rooms and rooms pass the options on the command line to main, and magica_rooms then the results of main and the files to output: sizes, seeds, numbers of rooms and mirror modes as numbers, debug and ctf as flags, flavours as a list, the files opened for what is read from or written to them '
     '(.vox as bytes, the graph as text), and the documented defaults (size 256, seed 42, rooms 200, mirror 2, no flavour) where an option is missing. They refuse other mirror modes than 1, 2, 4, unknown flavours, texts as numbers and missing files.',
     ['inputs'], 'command lines, noise and maps', 'No test runs a command line tool.',
     ['redeclipse/cli/iso.py', 'redeclipse/cli/perlin.py', 'redeclipse/cli/snow_forest.py', 'redeclipse/cli/rooms.py', 'redeclipse/cli/magica_rooms.py', 'redeclipse/cli/__init__.py'],
     [('main', 'redeclipse/cli/' + x + '.py') for x in ('iso', 'perlin', 'snow_forest', 'rooms', 'magica_rooms')],
     ENG + ' of the tools with stand-ins for argparse, map, noise, random numbers and rooms; command lines are applied to the arguments that the script declares',
     'Terrain of 16 by 16 columns with scripted noise; 24 option sets of rooms; fourteen command lines.')

prop('X03', 'The model tool shows the name, bounds, colours and levels of a .vox file',
     'magicavoxel_info prints for a .vox file, in this order: the name of the file without folder and last extension; the smallest and largest x, y and z of its voxels; the number and the red, green and blue of every palette entry that is not black; '
     'and for every level from the lowest to the highest its height and a picture with one line per x and in it one character per y, from the lowest to the highest, which is # where there is a voxel and a space elsewhere. Files whose palette has 255 entries are shown as well.',
     ['inputs'], 'models of coordinates below 128, palettes and file names', 'No test runs the tool.',
     ['redeclipse/cli/magicavoxel_info.py', 'redeclipse/magicavoxel/reader.py'], [('main', 'redeclipse/cli/magicavoxel_info.py')],
     ENG + ' of main on files built by the rules of the format; the text is compared line by line', 'Four models.')
