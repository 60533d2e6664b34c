"""What each property's check is made of."""
_asan = ['-fsanitize=address', '--param', 'asan-instrumentation-with-call-threshold=0']
VARIANTS = {
    'san': {
        'what': 'AddressSanitizer and UndefinedBehaviorSanitizer',
        'lib': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
        'harness': ['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
        'harness_machine': ['-O0', '-g1'] + _asan,
        'link': ['-fsanitize=address,undefined'],
    },
    'tsan': {
        'what': 'ThreadSanitizer',
        'lib': ['-O1', '-g', '-fsanitize=thread'],
        'harness': ['-O1', '-g1', '-fsanitize=thread'],
        'harness_machine': ['-O0', '-g1', '-fsanitize=thread'],
        'link': ['-fsanitize=thread'],
    },
    'pmr': {
        'what': 'AddressSanitizer and UndefinedBehaviorSanitizer, with the compatibility memory resources selected',
        'pmr_compat': True,
        'lib': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
        'harness': ['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
        'harness_machine': ['-O0', '-g1'] + _asan,
        'link': ['-fsanitize=address,undefined'],
    },
}
M = 'machine_parts.cpp'
PROPS = {p: {'src': [M]} for p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C15', 'C16', 'C21')}
for _p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12'): PROPS[_p]['src'] = [M, 'large.cpp']
PROPS['C22'] = {'src': [M, 'c22.cpp'], 'variant': 'pmr'}
PROPS['C15'] = {'src': [M, 'c15.cpp', 'large.cpp']}
PROPS['C16'] = {'src': [M, 'c16.cpp', 'c16_c.c']}
PROPS['C13'] = {'src': ['c13.cpp']}
PROPS['C17'] = {'src': ['c17.cpp']}
PROPS['C21'] = {'src': [M, 'c21.cpp', 'large.cpp']}
PROPS['C03'] = {'src': ['c03.cpp', 'c03_many.cpp']}
PROPS['C14'] = {'src': [M, 'c14.cpp', 'c14_c.c', 'large.cpp']}
PROPS['C18'] = {'src': ['c18.cpp'], 'v1': True}
PROPS['C19'] = {'src': ['c19.cpp'], 'v1': True}
PROPS['C23'] = {
    'src': ['c23.cpp'], 'host': ['host_dom.cpp', 'host_msgs.cpp', 'host_mixins.cpp'],
    # in the order of linking
    'modules': {
        'a1': (['mod_a.cpp'], ['-DVERSION=1'], []),
        'a2': (['mod_a.cpp'], ['-DVERSION=2'], []),
        'b': (['mod_b.cpp'], [], []),
        'd': (['mod_d.cpp'], [], ['b']),
        'e': (['mod_e2.cpp', 'mod_e1.cpp'], [], []),
        'f': (['mod_f_dom.cpp', 'mod_f_msg.cpp', 'mod_f_mix.cpp'], [], []),
        'g': (['mod_f_mix.cpp', 'mod_f_msg.cpp', 'mod_f_dom.cpp'], [], []),
    },
}
PROPS['C20'] = {'src': ['c20.cpp'], 'variant': 'tsan'}

_model = 'stateful property-based testing: random histories against a reference model, shrinking, sanitizers'
_note = 'Random histories, each step compared with a model of the whole domain and its objects; a pass says that no explored history breaks the property. Trusts the model of /verif/harness/world.hpp and the sanitizers; the generators bound sizes as stated in DESIGN.md.'
for _p in PROPS.values():
    _p.setdefault('technique', _model)
    _p.setdefault('note', _note)
def _t(p, technique, note):
    PROPS[p]['technique'] = technique
    PROPS[p]['note'] = note
_t('C03', 'property-based testing: generated class sets and call plans, the trace compared with one computed by a reference model, shrinking, sanitizers',
   'The messages and classes are fixed at compile time (14 messages, generated sets of mixins, bids, priorities and nested calls); a pass says that no explored plan gives another trace. Trusts the reference of c03.cpp.')
_t('C13', 'stateful property-based testing: mutation calls against a plain list, shrinking, sanitizers', 'Every call of a type mutation is compared with a list of infos; names are generated byte strings. Trusts the list model of c13.cpp.')
_t('C14', 'differential and stateful property-based testing: the C functions against the C++ ones and against the model, in histories which mix both, shrinking, sanitizers', 'Histories mix C and C++ calls on the same objects; programs through C alone are compared with a model; allocations fail on demand.')
_t('C16', 'property-based testing: every view function in C and C++ against loops over the bytes; names in random histories against a model, shrinking, sanitizers', 'Views of up to 300 generated bytes, in exact-size blocks and as windows of one buffer; pairs of up to 4 views. Trusts the byte loops of c16.cpp and the model of /verif/harness/world.hpp.')
_t('C17', 'property-based testing: infos of generated classes against what the language says of the class; builder calls and registration against a model, shrinking, sanitizers', 'The classes are fixed at compile time (a family of policies for special members, sizes and alignments); calls and places are generated.')
_t('C18', 'stateful property-based testing: v1 rules against a reference, every order of rules the statement allows accepted, shrinking, sanitizers', 'Rule sets and histories are generated; trusts the reference of c18.cpp.')
_t('C19', 'property-based testing: v1 messages and combinators against a reference trace, shrinking, sanitizers', 'The messages are fixed at compile time, sets of mixins, bids, priorities and combinators are generated.')
_t('C20', 'property-based testing of schedules: generated programs and interleavings at every lock, checked for a one-at-a-time order against a model; threads under ThreadSanitizer', 'The schedules are those of switches at the locks of the domain (the locks are the stand-ins of /verif/shim); races between locks are left to ThreadSanitizer in free runs. The order search is cut off after 300000 nodes and then not decided (labelled).')
_t('C21', 'stateful property-based testing: the dump parsed and compared with the model, traversals against the model, shrinking, sanitizers', _note)
_t('C22', 'property-based testing of arithmetic and resources against wide-integer references and histories of resources, shrinking, sanitizers', 'Sizes and alignments are generated around the boundaries; the compatibility resources are compiled in by an edited copy of the sources, and the machine of the other properties runs on them as well.')
_t('C15', 'property-based testing: mutations with typed operations against a model of the constructions; random histories against the model of the whole domain; shrinking, sanitizers', 'Six mixin classes with eight forms of constructor arguments are fixed at compile time; operations, their order, rules and faults are generated. Trusts the models of c15.cpp and world.hpp.')
_t('C23', 'stateful property-based testing: histories of loading and unloading real plugins between operations on objects, everything compared with a model after each step; shrinking, sanitizers', 'Seven plugins are fixed at compile time and rebuilt from the working tree; the histories are generated. Trusts the model of c23.cpp, and glibc for the order of static objects.')
