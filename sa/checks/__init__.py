CHECKS = {
    'M01': 'mapio:roundtrip',
    'M02': 'mapio:layout',
    'M03': 'mapio:wellformed',
    'E01': 'entities:constructors',
    'E02': 'entities:roundtrip',
    'G01': 'vectors:arithmetic',
    'G02': 'vectors:rotation',
    'V01': 'voxel:octree', 'V02': 'voxel:store', 'G03': 'vectors:order',
    'G04': 'vectors:engine_vectors',
    'K01': 'kit:geometry', 'K02': 'kit:contents',
    'R01': 'rooms:doors', 'R02': 'rooms:rendering', 'R03': 'rooms:entities', 'R04': 'rooms:models', 'R05': 'rooms:flags',
    'U01': 'upm:register', 'U02': 'upm:accept', 'U03': 'upm:join', 'U04': 'upm:place', 'U05': 'upm:caps', 'U06': 'upm:choices',
    'T01': 'textures:ids', 'T02': 'textures:texts', 'T03': 'textures:themes', 'T04': 'textures:files',
    'A01': 'effects:dice', 'A02': 'effects:shapes', 'A03': 'effects:gradients',
    'X01': 'voxfile:writer', 'X02': 'voxfile:reader',
    'L01': 'lights:placing', 'L02': 'lights:hues',
    'D01': 'repeat:runs',
    'C01': 'export:export', 'X03': 'voxfile:info', 'G05': 'cubes:cubes', 'I01': 'tools:tool',
    'N01': 'names:names',
    'S01': 'output:flavours', 'S02': 'output:skies', 'O01': 'output:outputs', 'O02': 'output:graph', 'O03': 'output:generator',
}
