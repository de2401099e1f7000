"""The operations kept as named, opaque steps when another class calls them (their own bodies are
analysed separately), and naming helpers that are the same for the sources and the header."""
FAMILY = {'RAM': 'RAM', 'RAMDataHandle': 'RAMDataHandle', 'Discriminator': 'Discriminator', 'DiscriminatorWrapper': 'Discriminator',
          'Wisard': 'Wisard', 'WisardWrapper': 'Wisard', 'Cluster': 'Cluster', 'ClusWisard': 'ClusWisard', 'ClusWisardWrapper': 'ClusWisard',
          'Bleaching': 'Bleaching', 'BBleaching': 'BBleaching', 'Base64': 'Base64', 'BinInput': 'BinInput', 'DataSet': 'DataSet',
          'Synthesizer': 'Synthesizer', 'KernelCanvas': 'KernelCanvas', 'KernelCanvasWrapper': 'KernelCanvas', 'BinBase': 'KernelCanvas'}
API = {
    'RAM': {'RAM', 'getVote', 'train', 'untrain', 'getMentalImage', 'getConfig', 'getData', 'setMapping', 'getAddressSize', 'getsizeof', 'checkInput'},
    'RAMDataHandle': {'RAMDataHandle', 'get', 'set', 'compare', 'data', 'save'},
    'Discriminator': {'Discriminator', 'classify', 'train', 'untrain', 'getMentalImage', 'jsonConfig', 'json', 'getConfigJSON', 'getJSON', 'getsizeof', 'getNumberOfTrainings', 'getNumberOfRAMS'},
    'Cluster': {'Cluster', 'train', 'classify', 'getMentalImages', 'getJson', 'getsizeof'},
    'Bleaching': {'make', 'getBiggestCandidate', 'getConfidence'},
    'BBleaching': {'make'},
    'Base64': {'encode', 'decode'},
    'BinInput': {'BinInput', 'data'},
    'DataSet': {'DataSet', 'save'},
}
def short(q):
    return q.split('<')[0].split('::')[-1] if q else ''
def clsname(f): return short(f.get('cls') or '')
def fname(f):
    c = clsname(f)
    n = f['n'].split('<')[0]
    return c + '::' + n if c else n
def tysig(prog, t): return prog.tyname(t).replace('wisardpkg::', '')
def fsig(prog, f): return fname(f) + '(' + ','.join(tysig(prog, q['t']) for q in f['params']) + ')'
def modular(it, f):
    c = clsname(f)
    fam = FAMILY.get(c)
    if fam is None or f.get('implicit') or f.get('defaulted'): return False
    own = FAMILY.get(clsname(it.frames[0].f), clsname(it.frames[0].f))
    if fam == own: return False
    n = c if f.get('ctor') else f['n'].split('<')[0]
    if f.get('ctor') and (not f['params']): return False
    return n in API.get(c, ())
def deep(it, f): return False
def modular_inline(*names):
    """modular, except that the operations of these classes are looked into"""
    names = set(names)
    def pol(it, f): return clsname(f) not in names and modular(it, f)
    return pol
OPTS = {'opaque': modular, 'name': 'modular'}
