"""What each property says about each operation: the leaves of the operation's value graph the property fixes."""
import re

# property -> list of (operation pattern, facets); a facet is 'exit', 'ret', 'this', 'this.<field>', 'A:*', 'file'
MODELS = 'Wisard|ClusWisard|Discriminator|Cluster'
TABLE = {
 'C04': [('RAM::(RAM|getVote|train|untrain|checkInput)', 'exit'),
         ('Discriminator::(Discriminator|classify|train|untrain)', 'exit'),
         ('DiscriminatorWrapper::.*', 'exit'),
         ('Wisard::(Wisard|train|classify|leaveOneOut|leaveMoreOut)', 'exit'),
         ('WisardWrapper::(WisardWrapper|pyClassify)', 'exit'),
         ('Cluster::(Cluster|train|classify)', 'exit'),
         ('ClusWisard::(ClusWisard|train|trainUnsupervised|classify|classifyUnsupervised)', 'exit'),
         ('ClusWisardWrapper::(ClusWisardWrapper|pyClassify)', 'exit'),
         ('KernelCanvas(Wrapper)?::.*', 'exit'), ('BinInput::.*', 'exit'), ('DataSet::(get|getLabel|operator.*)', 'exit')],
 'C06': [('RAM::getVote', 'ret'), ('RAM::(train|untrain)', 'this.positions'), ('RAM::RAM', 'exit'), ('RAM::getMentalImage', 'ret'),
         ('RAMDataHandle::(get|data)', 'ret'), ('RAMDataHandle::(set|RAMDataHandle)', 'this'), ('RAM::RAM', 'this.positions')],
 'C07': [('RAM::(train|untrain)', 'this'), ('RAM::getVote', 'ret'), ('Discriminator::(train|untrain)', 'this'), ('Discriminator::classify', 'ret'),
         ('Discriminator::(getNumberOfTrainings|getNumberOfRAMS)', 'ret'), ('Wisard::(train|leaveOneOut|leaveMoreOut)', 'this.discriminators'),
         ('Cluster::classify', 'ret')],
 'C08': [('RAM::RAM', 'this'), ('Discriminator(Wrapper)?::Discriminator(Wrapper)?', 'this'), ('Wisard(Wrapper)?::Wisard(Wrapper)?', 'this'),
         ('Wisard::train', 'this.discriminators'), ('Cluster::(Cluster|train)', 'this'), ('ClusWisard(Wrapper)?::ClusWisard(Wrapper)?', 'this'),
         ('ClusWisard::(train|trainUnsupervised)', 'this'), ('KernelCanvas(Wrapper)?::KernelCanvas(Wrapper)?', 'this')],
 'C09': [('(Wisard|ClusWisard|Discriminator)::(json|jsonConfig|getConfigJSON|getJSON)', 'ret'), ('Cluster::getJson', 'ret'), ('RAM::(getConfig|getData|setMapping)', 'ret A:*'),
         ('(Wisard|ClusWisard|Discriminator)::(Wisard|ClusWisard|Discriminator)\\((S|J)\\)', 'this exit'), ('(Wisard|ClusWisard|Discriminator)Wrapper::.*\\(S\\)', 'this exit'),
         ('Cluster::Cluster\\(J\\)', 'this'), ('RAM::RAM\\(J\\)', 'this'), ('RAMDataHandle::.*', 'this ret')],
 'C10': [('Base64::(encode|decode)', 'ret exit'), ('RAMDataHandle::(RAMDataHandle|set)', 'this exit'), ('RAMDataHandle::(data|get|compare)', 'ret'), ('RAMDataHandle::save', 'file'),
         ('BinInput::BinInput\\(S\\)', 'this exit'), ('BinInput::data', 'ret'), ('DataSet::(DataSet|add)', 'this'), ('DataSet::save', 'file'), ('DataSet::(get|getLabel|size)', 'ret'),
         ('RAM::getData', 'ret'), ('RAM::RAM\\(J\\)', 'this'), ('Discriminator::Discriminator\\((S|J)\\)', 'this'), ('Discriminator::(json|getJSON)', 'ret file')],
 'C11': [('BinInput::.*', 'this ret exit')],
 'C12': [('Wisard::train', 'this'), ('Wisard::classify', 'ret'), ('Wisard::(leaveMoreOut|leaveOneOut)', 'this'), ('WisardWrapper::pyClassify', 'ret'), ('ClusWisard::(train|trainUnsupervised)', 'this exit A:*'),
         ('ClusWisard::(classify|classifyUnsupervised)', 'ret'), ('ClusWisardWrapper::pyClassify', 'ret'), ('DataSet::add', 'this'), ('DataSet::(get|getLabel|size|operator.*)', 'ret'), ('Discriminator::train', 'this'), ('Cluster::classify', 'ret')],
 'C13': [('Bleaching::(getBiggestCandidate|getConfidence)', 'ret'), ('Wisard::classify', 'ret'), ('WisardWrapper::pyClassify', 'ret'), ('ClusWisard::(classify|classifyUnsupervised)', 'ret'), ('ClusWisardWrapper::pyClassify', 'ret'),
         ('ClusWisard::train', 'this.clusters')],
 'C14': [('Bleaching::(make|makeWithConfidence|makeConfidenceless)', 'ret'), ('(Wisard|ClusWisard)::(classify|classifyUnsupervised)', 'ret'), ('(Wisard|ClusWisard)Wrapper::pyClassify', 'ret')],
 'C15': [('Cluster::(train)', 'this'), ('Cluster::(getScore|getNumberOfDiscriminators|getSize)', 'ret'), ('Cluster::Cluster', 'this'), ('ClusWisard::(train|trainUnsupervised)', 'this')],
 'C19': [('RAMDataHandle::save', 'file exit'), ('DataSet::save', 'file exit'), ('RAMDataHandle::RAMDataHandle\\(S\\)', 'this exit'), ('DataSet::DataSet\\(S\\)', 'this exit'),
         ('(Wisard|ClusWisard|Discriminator)::json\\(bool,S\\)', 'exit'), ('Cluster::getJson', 'exit'), ('Discriminator::getJSON', 'exit'),
         ('(Wisard|ClusWisard|Discriminator)(Wrapper)?::(Wisard|ClusWisard|Discriminator)(Wrapper)?\\((S|J)\\)', 'exit')],
 'C20': [('(Wisard|ClusWisard|Discriminator|KernelCanvas)Wrapper::.*Wrapper\\(.*kwargs\\)', 'this exit')],
 'C24': [('RAM::RAM\\(vector.*', 'this'), ('RAM::setMapping', 'A:*'), ('Discriminator::Discriminator\\(vector.*', 'this exit'), ('Discriminator::(json|jsonConfig|getJSON|getConfigJSON)', 'ret')],
 'C25': [('KernelCanvas::transform', 'ret exit'), ('KernelCanvas(Wrapper)?::KernelCanvas(Wrapper)?', 'this.numberOfKernelsToActivate this.bitsByKernel this.useDirection this.kernels.#')],
 'C28': [('(RAM|Discriminator|Cluster|ClusWisard|Wisard)::(getMentalImage|getMentalImages)', 'ret')],
}
def pname(t):
    t = t.replace('std::basic_string<char>', 'S').replace('nlohmann::basic_json<>', 'J').replace('std::', '').replace('pybind11::', '').replace(' ', '')
    return t.replace('unsignedlonglong', 'U')
def opname(api, prog, f): return api.fname(f) + '(' + ','.join(pname(api.tysig(prog, q['t'])) for q in f['params']) + ')'
def matches(pat, name):
    """a pattern without parentheses fixes the operation, one with them the signature too"""
    if '\\(' in pat: return re.fullmatch(pat, name) is not None
    return re.fullmatch(pat, name.split('(')[0]) is not None
def facets(prop, name):
    """facets of an operation the property fixes: None or (kinds, want)"""
    fs = set()
    for pat, f in TABLE.get(prop, ()):
        if matches(pat, name): fs |= set(f.split())
    if not fs: return None
    kinds = set()
    if 'exit' in fs: kinds.add('exit')
    if 'file' in fs: kinds.add('file')
    if fs - {'exit', 'file'}: kinds.add('value')
    def want(obj, path):
        if obj == 'ret': return 'ret' in fs
        if obj == 'this': return 'this' in fs or any(x.startswith('this.') and path and (path[0] == x[5:] or '.'.join(path) == x[5:]) for x in fs)
        if obj.startswith('A:'): return 'A:*' in fs
        return False
    return kinds, want
