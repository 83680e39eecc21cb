"""Synthetic products: a real sample is read with the independent readers, cut down, and changed by a list of operations
(clone, remove, reorder, rename, module texts, comments, help, payloads, ...), then written with the independent writer.

A case is a plain dict: {'base': sample, 'keep': [ints] or None, 'ops': [[name, ints and texts...], ...]}; object
indices are taken modulo the number of objects present, so that any case is valid and shrinks well."""
import base64
import copy
import random
import re
import uuid as _uuid

from hypothesis import strategies as st

from harness import gen, products, refbrace as rb

# type identifiers of the platform -> kind (as listed in the documentation of the platform's metadata)
KINDS = {
    '2deed9b8-0056-4ffe-a473-c20a6c32a0bc': 'AccountingRegister',
    '7162da60-f7fe-4d78-ad5d-e31700f9af18': 'AccountingRegisterCommand',
    'd3b5d6eb-4ea2-4610-a3e2-624d4e815934': 'AccountingRegisterForm',
    'b64d9a40-1642-11d6-a3c7-0050bae0a776': 'AccumulationRegister',
    '99f328af-a77f-4572-a2d8-80ed20c81890': 'AccumulationRegisterCommand',
    'b64d9a44-1642-11d6-a3c7-0050bae0a776': 'AccumulationRegisterForm',
    '6e6dc072-b7ac-41e7-8f88-278d25b6da2a': 'Bot',
    'fcd3404e-1523-48ce-9bc0-ecdb822684a1': 'BusinessProcess',
    '7a3e533c-f232-40d5-a932-6a311d2480bf': 'BusinessProcessCommand',
    '3f7a8120-b71a-4265-98bf-4d9bc09b7719': 'BusinessProcessForm',
    'f2de87a8-64e5-45eb-a22d-b3aedab050e7': 'CalculationRegister',
    'acdf0f11-2d59-4e37-9945-c6721871a8fe': 'CalculationRegisterCommand',
    'a2cb086c-db98-43e4-a1a9-0760ab048f8d': 'CalculationRegisterForm',
    '274bf899-db0e-4df6-8ab5-67bf6371ec0b': 'CalculationRegisterRecalculations',
    'cf4abea6-37b2-11d4-940f-008048da11f9': 'Catalog',
    '4fe87c89-9ad4-43f6-9fdb-9dc83b3879c6': 'CatalogCommand',
    'fdf816d2-1ead-11d5-b975-0050bae0a95d': 'CatalogForm',
    '238e7e88-3c5f-48b2-8a3b-81ebbecb20ed': 'ChartOfAccounts',
    '0df30176-6865-4787-9fc8-609eb144174f': 'ChartOfAccountsCommand',
    '5372e285-03db-4f8c-8565-fe56f1aea40e': 'ChartOfAccountsForm',
    '30b100d6-b29f-47ac-aec7-cb8ca8a54767': 'ChartOfCalculationTypes',
    '2e90c75b-2f0c-4899-a7d4-5426eaefc96e': 'ChartOfCalculationTypesCommand',
    'a7f8f92a-7a4b-484b-937e-42d242e64144': 'ChartOfCalculationTypesForm',
    '82a1b659-b220-4d94-a9bd-14d757b95a48': 'ChartOfCharacteristicType',
    '95b5e1d4-abfa-4a16-818d-a5b07b7d3f73': 'ChartOfCharacteristicTypeCommand',
    'eb2b78a8-40a6-4b7e-b1b3-6ca9966cbc94': 'ChartOfCharacteristicTypeForm',
    '1c57eabe-7349-44b3-b1de-ebfeab67b47d': 'CommandGroup',
    '15794563-ccec-41f6-a83c-ec5f7b9a5bc1': 'CommonAttribute',
    '2f1a5187-fb0e-4b05-9489-dc5dd6412348': 'CommonCommand',
    '07ee8426-87f1-11d5-b99c-0050bae0a95d': 'CommonForm',
    '0fe48980-252d-11d6-a3c7-0050bae0a776': 'CommonModule',
    '7dcd43d9-aca5-4926-b549-1842e6a4e8cf': 'CommonPicture',
    '0c89c792-16c3-11d5-b96b-0050bae0a95d': 'CommonTemplate',
    '0195e80c-b157-11d4-9435-004095e12fc7': 'Constant',
    'bf845118-327b-4682-b5c6-285d2a0eb296': 'DataProcessor',
    '45556acb-826a-4f73-898a-6025fc9536e1': 'DataProcessorCommand',
    'c045099e-13b9-4fb6-9d50-fca00202971e': 'DefinedType',
    '061d872a-5787-460e-95ac-ed74ea3a3e84': 'Document',
    'b544fc6a-2ba3-4885-8fb2-cb289fb6d65e': 'DocumentCommand',
    'fb880e93-47d7-4127-9357-a20e69c17545': 'DocumentForm',
    '4612bd75-71b7-4a5c-8cc5-2b0b65f9fa0d': 'DocumentJournal',
    'a49a35ce-120a-4c80-8eea-b0618479cd70': 'DocumentJournalCommand',
    'ec81ad10-ca07-11d5-b9a5-0050bae0a95d': 'DocumentJournalForm',
    '36a8e346-9aaa-4af9-bdbd-83be3c177977': 'DocumentNumerators',
    'f6a80749-5ad7-400b-8519-39dc5dff2542': 'Enum',
    '6d8d73a7-ba29-401d-9032-3872ec2d6433': 'EnumCommand',
    '33f2e54b-37ce-4a7a-a569-b648d7aa4634': 'EnumForm',
    '4e828da6-0f44-4b5b-b1c0-a2b3cfe7bdcc': 'EventSubscription',
    '857c4a91-e5f4-4fac-86ec-787626f1c108': 'ExchangePlan',
    'd5207c64-11d5-4d46-bba2-55b7b07ff4eb': 'ExchangePlanCommand',
    '87c509ab-3d38-4d67-b379-aca796298578': 'ExchangePlanForm',
    '5274d9fc-9c3a-4a71-8f5e-a0db8ab23de5': 'ExternalDataSource',
    '2bb208ca-e441-4023-9ab9-32a7807a85d0': 'ExternalDataSourceCube',
    '3448e506-5add-4fce-a604-7305466b2d8e': 'ExternalDataSourceCubeForm',
    '4ee40ec7-3469-439f-adb4-aa26ce2d3ec3': 'ExternalDataSourceCubeCommand',
    'e3403acd-1c95-421b-87e4-4dfa29d38b52': 'ExternalDataSourceTable',
    '17816ebc-4068-496e-adc4-8879945a832f': 'ExternalDataSourceTableForm',
    '5bb6f09e-5d80-41f6-8070-9faa4d15b69b': 'ExternalDataSourceTableCommand',
    '3e7bfcc0-067d-11d6-a3c7-0050bae0a776': 'FilterCriterion',
    '23fa3b84-220a-40e9-8331-e588bed87f7d': 'FilterCriterionCommand',
    '00867c40-06b1-11d6-a3c7-0050bae0a776': 'FilterCriterionForm',
    'd5b0e5ed-256d-401c-9c36-f630cafd8a62': 'Form',
    'ec6bb5e5-b7a8-4d75-bec9-658107a699cf': 'FormAttribute',
    'af547940-3268-434f-a3e7-e47d6d2638c3': 'FunctionalOption',
    '30d554db-541e-4f62-8970-a1c6dcfeb2bc': 'FunctionalOptionsParameter',
    '0fffc09c-8f4c-47cc-b41c-8d5c5a221d79': 'HTTPService',
    '13134201-f60b-11d5-a3c7-0050bae0a776': 'InformationRegister',
    'b44ba719-945c-445c-8aab-1088fa4df16e': 'InformationRegisterCommand',
    '13134204-f60b-11d5-a3c7-0050bae0a776': 'InformationRegisterForm',
    'bf3420b0-f6f9-41a0-b83a-fe9d4ab0b65d': 'IntegrationService',
    '39bddf6a-0c3c-452b-921c-d99cfa1c2f1b': 'Interface',
    '9cd510ce-abfc-11d4-9434-004095e12fc7': 'Language',
    '631b75a0-29e2-11d6-a3c7-0050bae0a776': 'Report',
    'e7ff38c0-ec3c-47a0-ae90-20c73ca72246': 'ReportCommand',
    'a3b368c0-29e2-11d6-a3c7-0050bae0a776': 'ReportForm',
    '09736b02-9cac-4e3f-b4f7-d3e9576ab948': 'Role',
    '11bdaf85-d5ad-4d91-bb24-aa0eee139052': 'ScheduledJob',
    'bc587f20-35d9-11d6-a3c7-0050bae0a776': 'Sequences',
    '24c43748-c938-45d0-8d14-01424a72b11e': 'SessionParameter',
    '46b4cd97-fd13-4eaa-aba2-3bddd7699218': 'SettingsStorage',
    'b8533c0c-2342-4db3-91a2-c2b08cbf6b23': 'SettingsStorageForm',
    '3e5404af-6ef8-4c73-ad11-91bd2dfac4c8': 'Style',
    '58848766-36ea-4076-8800-e91eb49590d7': 'StyleItem',
    '37f2fa9a-b276-11d4-9435-004095e12fc7': 'Subsystem',
    '2bcef0d1-0981-11d6-b9b8-0050bae0a95d': 'TabularSectionAttribute',
    '3e63355c-1378-4953-be9b-1deb5fb6bec5': 'Task',
    'f27c2152-a2c9-4c30-adb1-130f5eb2590f': 'TaskCommand',
    '3f58cbfb-4172-4e54-be49-561a579bb38b': 'TaskForm',
    '3daea016-69b7-4ed4-9453-127911372fe6': 'Template',
    '8657032e-7740-4e1d-a3ba-5dd6e8afb78f': 'WebService',
    'd26096fb-7a5d-4df9-af63-47d04771fa9b': 'WSReference',
    'cc9df798-7c94-4616-97d2-7aa0b7bc515e': 'XDTOPackage',
}
TYPE_OF = {v: k for k, v in KINDS.items()}

# kind -> {source name of the module: number of the internal file}
MODULES = {
    'AccountingRegister': {'obj': '6', 'mgr': '7'}, 'AccumulationRegister': {'mgr': '2', 'obj': '1'},
    'Bot': {'obj': '1'}, 'BusinessProcess': {'obj': '6', 'mgr': '8'}, 'CalculationRegister': {'obj': '1', 'mgr': '2'},
    'Catalog': {'mgr': '3', 'obj': '0'}, 'ChartOfAccounts': {'obj': '14', 'mgr': '15'},
    'ChartOfCalculationTypes': {'obj': '0', 'mgr': '3'}, 'ChartOfCharacteristicType': {'mgr': '16', 'obj': '15'},
    'CommonCommand': {'obj': '2'}, 'CommonModule': {'obj': '0'}, 'Constant': {'mgr': '1', 'obj': '0'},
    'DataProcessor': {'mgr': '2', 'obj': '0'}, 'Document': {'obj': '0', 'mgr': '2'},
    'DocumentJournal': {'mgr': '1'}, 'Enum': {'obj': '0'}, 'ExchangePlan': {'obj': '2', 'mgr': '3'},
    'ExternalDataSourceCube': {'obj': '2', 'mgr': '1'}, 'FilterCriterion': {'obj': '0'},
    'InformationRegister': {'mgr': '2', 'obj': '1'}, 'IntegrationService': {'obj': '0'},
    'Report': {'mgr': '2', 'obj': '0'}, 'SettingsStorage': {'mgr': '8'}, 'Task': {'obj': '6', 'mgr': '7'},
}
for _k in list(KINDS.values()):
    if _k.endswith('Command') and _k != 'CommonCommand':
        MODULES[_k] = {'obj': '2'}
HELP = {'AccountingRegister': '5', 'AccumulationRegister': '0', 'BusinessProcess': '5', 'CalculationRegister': '0',
        'Catalog': '1', 'ChartOfAccounts': '5', 'ChartOfCalculationTypes': '1', 'ChartOfCharacteristicType': '5',
        'CommonCommand': '1', 'DataProcessor': '1', 'Document': '1', 'DocumentJournal': '0', 'ExchangePlan': '0',
        'InformationRegister': '0', 'Report': '1', 'Subsystem': '0', 'Task': '5'}
# binary payload carried as is: kind -> (internal number, source file)
PAYLOAD = {'AccumulationRegister': ('3', 'Предустановленные данные.bin'), 'Catalog': ('1c', 'Предустановленные данные.bin'),
           'ChartOfAccounts': ('9', 'Предустановленные данные.bin'),
           'ChartOfCalculationTypes': ('2', 'Предустановленные данные.bin'),
           'ChartOfCharacteristicType': ('7', 'Предустановленные данные.bin'),
           'BusinessProcess': ('7', 'Карта маршрута.bin'),
           'EventSubscription': ('0', 'EventSubscription.0.c1brace'), 'Interface': ('0', 'Interface.0.c1brace'),
           'Role': ('0', 'Role.0.c1brace'), 'ScheduledJob': ('0', 'ScheduledJob.0.c1brace'),
           'Style': ('0', 'Style.0.c1brace'), 'XDTOPackage': ('0', 'XDTOPackage.bin')}
INFO = {'Subsystem': '1', 'ExchangePlan': '1'}  # bracket file kept in the header json
TOP_MODULES = {'Configuration': {'seance': '7', 'app': '6', '802': '0', 'con': '5'},
               'ConfigurationExtension': {'con': '5', 'app': '6', 'ssn': '7'},
               'ExternalDataProcessor': {'obj': '0'}}
TEMPLATE_TYPES = {'0': 'table', '1': 'base64', '2': 'active_doc', '3': 'html', '4': 'text', '5': 'geographic',
                  '6': 'scheme', '7': 'design', '8': 'graphic_scheme', '9': 'extension'}
INFO_TREE = [['3', '1', '0', '""', '0']]
UUID = re.compile(r'[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$')


def find_record(tree, uid):
    """The header record of the object: {n,{x,y,uuid},"name",{synonyms},"comment",...}"""
    for x in tree:
        if isinstance(x, list):
            if len(x) >= 5 and isinstance(x[1], list) and len(x[1]) == 3 and x[1][2] == uid \
                    and isinstance(x[2], str) and x[2][:1] == '"' and isinstance(x[3], list):
                return x
            r = find_record(x, uid)
            if r is not None:
                return r
    return None


def is_toc(x):
    return (isinstance(x, list) and len(x) >= 2 and isinstance(x[0], str) and x[0] in KINDS and isinstance(x[1], str)
            and x[1].isdigit() and len(x) == 2 + int(x[1]))


def tocs(tree, path=()):
    """All table-of-contents entries of a header tree, outermost first, in file order."""
    for i, x in enumerate(tree):
        if isinstance(x, list):
            if is_toc(x):
                yield x
            else:
                yield from tocs(x, path + (i,))


class Obj:
    def __init__(self, kind, uid, file, toc, owner, tree=None):
        self.kind, self.uid, self.file, self.toc, self.owner, self.tree = kind, uid, file, toc, owner, tree

    @property
    def internal(self):
        return self.tree is not None

    def __repr__(self):
        return f'{self.kind}:{self.uid[:8]}'


class Product:
    def __init__(self, base, containers=None):
        self.base = base
        self.containers = containers or products.sample_containers(base)
        self.main = self.containers[-1]
        self.trees = {}  # parsed and possibly changed header files
        self.raw = {}
        if 'configinfo' in self.main:
            self.type = 'ConfigurationExtension'
            self.top = rb.parse(rb.decode_text(self.main['configinfo'])[0])[1][1]
        else:
            self.top = rb.parse(rb.decode_text(self.main['root'])[0])[0][1]
            self.type = 'Configuration' if self.tree(self.top)[0][3][0] == '9cd510cd-abfc-11d4-9434-004095e12fc7' \
                else 'ExternalDataProcessor'
        if self.type == 'ExternalDataProcessor':
            self.top_record = self.tree(self.top)[0][3][1][1][3][1]
        else:
            self.top_record = self.tree(self.top)[0][3][1][1][1][1]
        self.top_uid = self.top_record[1][2]
        self.serial = 0
        self.touched = []  # (what changed), for reports

    def tree(self, name):
        if name not in self.trees:
            self.trees[name] = rb.parse(rb.decode_text(self.main[name])[0])
        return self.trees[name]

    def objects(self):
        """All objects, owners before their children."""
        res = []

        def walk(file, tree, owner):
            for toc in tocs(tree):
                kind = KINDS[toc[0]]
                for x in toc[2:]:
                    if isinstance(x, str):
                        if x in self.main:
                            o = Obj(kind, x, x, toc, owner)
                            res.append(o)
                            if not kind.endswith('Form') and kind != 'Form':
                                walk(x, self.tree(x), o)
                    elif kind.endswith('Command'):
                        rec = command_record(x)
                        if rec is not None:
                            res.append(Obj(kind, rec[1][2], file, toc, owner, x))
        walk(self.top, self.tree(self.top), None)
        return res

    def record(self, o):
        if o.internal:
            return command_record(o.tree)
        return find_record(self.tree(o.file), o.uid)

    def files_of(self, uid):
        return [n for n in self.main if n == uid or n.startswith(uid + '.')]

    def new_uid(self):
        self.serial += 1
        return str(_uuid.UUID(int=0x5eed0000_0000_4000_8000_000000000000 + self.serial * 0x1234567))

    # ------------------------------------------------------------------------------------- operations
    def remove(self, o, objs=None):
        for c in (objs or self.objects()):
            if c.owner is not None and c.owner.uid == o.uid:
                self.remove(c, objs)
        for i in range(2, len(o.toc)):
            x = o.toc[i]
            if x is o.tree or (o.tree is None and x == o.uid):
                del o.toc[i]
                break
        o.toc[1] = str(len(o.toc) - 2)
        for n in self.files_of(o.uid):
            del self.main[n]
            self.trees.pop(n, None)

    def clone(self, o, name, same_ids=False):
        new = self.new_uid()
        mapping = {o.uid: new}
        children = []
        objs = self.objects()

        def collect(p):
            for c in objs:
                if c.owner is not None and c.owner.uid == p.uid:
                    mapping[c.uid] = self.new_uid()
                    children.append(c)
                    collect(c)
        collect(o)
        for old, uid in mapping.items():
            for n in self.files_of(old):
                m = uid + n[len(old):]
                data = self.main[n]
                self.main[m] = dict(data) if isinstance(data, dict) else data
                if n in self.trees:
                    self.trees[m] = copy.deepcopy(self.trees[n])
        if o.internal:
            t = copy.deepcopy(o.tree)
            command_record(t)[1][2] = new
            command_record(t)[2] = quote(self.unique(o, name))
            o.toc.append(t)
            o.toc[1] = str(len(o.toc) - 2)
            return new
        for old, uid in mapping.items():
            if uid not in self.main:
                continue
            t = self.tree(uid)
            rec = find_record(t, old)
            rec[1][2] = uid
            for toc in tocs(t):
                for i, x in enumerate(toc[2:], 2):
                    if isinstance(x, str) and x in mapping:
                        toc[i] = mapping[x]
                    elif isinstance(x, list):
                        r = command_record(x)
                        if r is not None and r[1][2] in mapping:
                            r[1][2] = mapping[r[1][2]]
        find_record(self.tree(new), new)[2] = quote(self.unique(o, name))
        o.toc.append(new)
        o.toc[1] = str(len(o.toc) - 2)
        return new

    def siblings(self, o):
        uid = o.owner.uid if o.owner else None
        return [x for x in self.objects() if x.kind == o.kind and (x.owner.uid if x.owner else None) == uid]

    def unique(self, o, name):
        used = {self.record(x)[2][1:-1].lower() for x in self.siblings(o) if x.uid != o.uid or name is None}
        used.add(self.record(o)[2][1:-1].lower())
        cand, i = name, 1
        while cand.lower() in used:
            i += 1
            cand = f'{name}{i}'
        return cand

    def rename(self, o, name):
        used = {self.record(x)[2][1:-1].lower() for x in self.siblings(o) if x.uid != o.uid}
        cand, i = name, 1
        while cand.lower() in used:
            i += 1
            cand = f'{name}{i}'
        self.record(o)[2] = quote(cand)

    def put_module(self, uid, number, text, as_file=False, encoding='utf-8-sig'):
        name = f'{uid}.{number}'
        raw = text if isinstance(text, bytes) else text.encode(encoding)
        if as_file:
            self.main[name] = raw
        else:
            old = self.main.get(name)
            info = old['info'] if isinstance(old, dict) and 'info' in old else \
                rb.serialise([INFO_TREE[0]]).encode('utf-8-sig')
            self.main[name] = {'info': info, 'text': raw}

    # ---------------------------------------------------------------------------------------- writing
    def finish(self):
        for name, tree in self.trees.items():
            if name in self.main:
                old = self.main[name]
                bom = b'\xef\xbb\xbf' if old[:3] == b'\xef\xbb\xbf' else b''
                if rb.parse(rb.decode_text(old)[0]) != tree:
                    self.main[name] = bom + rb.serialise(tree, nl='\r\n').encode()
        if 'versions' in self.main:
            names = ['""'] + [quote(n) for n in sorted(self.main)]
            v = ['1', str(len(names))]
            for i, n in enumerate(names):
                v += [n, str(_uuid.UUID(int=0x11110000_0000_4000_8000_000000000000 + i))]
            self.main['versions'] = rb.serialise([v]).encode('utf-8-sig')
        if 'configinfo' in self.main:
            import hashlib
            t = rb.parse(rb.decode_text(self.main['configinfo'])[0])
            rows = []
            n = 0
            for name in sorted(self.main):
                if name == 'configinfo':
                    continue
                data = self.main[name]
                if isinstance(data, dict):
                    data = products.rc.write(sorted(data.items()), products.rc.L32)
                rows += [quote(name), base64.b64encode(hashlib.sha1(products.deflate(data)).digest()).decode()]
                n += 1
            t[2] = [str(n)] + rows
            self.main['configinfo'] = rb.serialise(t).encode('utf-8-sig')
        return self.containers

    def bytes(self):
        return products.pack(self.finish())


def command_record(x):
    """Header record of a command stored inside its owner."""
    try:
        rec = x[0][1][3][2][9] if isinstance(x[0], list) else None
    except (IndexError, TypeError):
        rec = None
    if rec is None and isinstance(x, list):
        rec = _any_record(x)
    return rec


def _any_record(x):
    for y in x:
        if isinstance(y, list):
            if len(y) >= 5 and isinstance(y[1], list) and len(y[1]) == 3 and isinstance(y[1][2], str) \
                    and UUID.match(y[1][2]) and isinstance(y[2], str) and y[2][:1] == '"' and isinstance(y[3], list):
                return y
            r = _any_record(y)
            if r is not None:
                return r
    return None


def quote(s):
    return '"' + s.replace('"', '""') + '"'


# ---------------------------------------------------------------------------------------------- operations
def _pick(seq, i):
    return seq[i % len(seq)] if seq else None


def apply(case):
    """-> Product after the operations of the case; Product.log lists what was done."""
    p = Product(case['base'])
    p.log = []
    keep = case.get('keep')
    if keep is not None:
        objs = p.objects()
        top = [o for o in objs if o.owner is None]
        stay = {_pick(top, i).uid for i in keep} if top else set()
        for o in top:
            if o.uid not in stay:
                p.remove(o, objs)
    for op in case.get('ops', ()):
        fn = globals()['op_' + op[0]]
        what = fn(p, *op[1:])
        if what:
            p.log.append(what)
    drop_orphan_areas(p)
    return p


def form_text(p, o):
    data = p.main.get(f'{o.uid}.0', b'')
    if isinstance(data, dict):
        data = data.get('form', b'') + b'\n' + data.get('module', b'')
    return data.decode('utf-8', 'ignore')


def drop_orphan_areas(p):
    """A form that only reads a shared area needs the form that owns it."""
    while True:
        objs = [o for o in p.objects() if o.kind.endswith('Form')]
        texts = {o.uid: form_text(p, o) for o in objs}
        owned = set()
        for t in texts.values():
            owned |= set(re.findall(r'"include_(\w+)"', t))
        bad = [o for o in objs if set(re.findall(r'"includr_(\w+)"', texts[o.uid])) - owned]
        if not bad:
            return
        p.remove(bad[0])


def op_clone(p, i, name):
    o = _pick(p.objects(), i)
    if o is None:
        return
    p.clone(o, name)
    return f'clone {o.kind}'


def op_remove(p, i):
    o = _pick(p.objects(), i)
    if o is None:
        return
    p.remove(o)
    return f'remove {o.kind}'


CRAFTED = ['XDTOPackage', 'WSReference', 'CatalogForm', 'DataProcessorCommand', 'Interface', 'DocumentNumerators',
           'Sequences', 'CalculationRegisterRecalculations']
FORMS1 = ['DocumentForm', 'InformationRegisterForm', 'AccumulationRegisterForm', 'EnumForm', 'DocumentJournalForm']
COMMANDS9 = ['InformationRegisterCommand', 'ReportCommand', 'DocumentJournalCommand', 'AccumulationRegisterCommand']


def slot_of(p, kind, i):
    """The (maybe empty) entries for objects of the kind in the headers of the possible owners. -> (file, toc) or None"""
    files = [p.top] + [o.file for o in p.objects() if not o.internal and o.kind != 'Form' and not o.kind.endswith('Form')]
    return _pick([(f, t) for f in files for t in tocs(p.tree(f)) if KINDS[t[0]] == kind], i)


def craft(p, kind, i, name, spec=('random', 0, 0)):
    """An object of a kind that no sample has. -> uid or None"""
    slot = slot_of(p, kind, i)
    objs = p.objects()
    if slot is None:
        return
    file, toc = slot
    if kind in ('CatalogForm', 'DataProcessorCommand'):
        o = _pick([o for o in objs if o.kind in (FORMS1 if kind == 'CatalogForm' else COMMANDS9)
                   and o.internal == (kind != 'CatalogForm')], i)
        if o is None:
            return
        uid = p.clone(o, name)
        rec = p.record(next(x for x in p.objects() if x.uid == uid))
        x = o.toc.pop()
        used = {p.record(x)[2].lower() for x in objs if x.toc is toc}
        base, n = rec[2][1:-1], 1
        while rec[2].lower() in used:  # names are unique in the new owner
            n += 1
            rec[2] = quote(f'{base}{n}')
        o.toc[1] = str(len(o.toc) - 2)
        toc.append(x)
        toc[1] = str(len(toc) - 2)
        return uid
    used = {p.record(o)[2][1:-1].lower() for o in objs if o.kind == kind}
    base, n = name, 1
    while name.lower() in used:
        n += 1
        name = f'{base}{n}'
    uid = p.new_uid()
    rec = ['3', ['1', '0', uid], quote(name), ['1', '"ru"', quote(name)], '""', '0', '0', '00000000-0000-0000-0000-000000000000', '0']
    tree = {'XDTOPackage': [['1', ['0', rec, '"http://v8.1c.ru/x"', ['0']], '0']],
            'WSReference': [['1', ['0', '"http://localhost/x?wsdl"', rec], '0']],
            'Interface': [['1', ['0', '1', rec, '0'], '0']],
            'DocumentNumerators': [['1', ['1', rec, '1', '0', '5'], '0']]}.get(
        kind, [['1', ['5', '0', '0', '1', '0', '0', '0', ['0', rec]], '0']])
    p.main[uid] = rb.serialise(tree, nl='\r\n').encode('utf-8-sig')
    data = gen.expand(spec)
    if data[:4] == b'\xff\xff\xff\x7f':
        data = b'x' + data
    if kind in PAYLOAD and i % 4:
        p.main[f'{uid}.{PAYLOAD[kind][0]}'] = data
    if kind == 'WSReference' and i % 4:
        p.main[f'{uid}.0'] = {'0': data, 'types.xsd': '<schema>é</schema>'.encode(), 'ws.wsdl': b''} if i % 4 > 1 else {'0': data}
    toc.append(uid)
    toc[1] = str(len(toc) - 2)
    return uid


def crafted_cases():
    """Every kind that no sample has, in several shapes, in small products."""
    res = []
    for base in ('C803', 'CE803', 'apam'):
        p = Product(base)
        objs = p.objects()
        top = [o for o in objs if o.owner is None]

        def owner(test):
            for o in objs:
                if test(o):
                    while o.owner is not None:
                        o = o.owner
                    return top.index(next(x for x in top if x.uid == o.uid))
        for k, kind in enumerate(CRAFTED):
            keep = [0]
            if kind in ('CatalogForm', 'DataProcessorCommand', 'CalculationRegisterRecalculations'):
                slot = slot_of(p, kind, 0)
                if slot is None:
                    continue
                keep = [owner(lambda o: o.file == slot[0]),
                        owner(lambda o: o.kind in (FORMS1 if kind == 'CatalogForm' else COMMANDS9))]
                if None in keep:
                    continue
            for i in range(4):
                res.append(dict(base=base, keep=keep, ops=[('craft', k, i, f'Новый{i}', ('random', 20 * i, i))]
                                + [('clone', j, f'Еще{j}') for j in range(i)]))
    return res


def op_craft(p, k, i, name, spec):
    kind = _pick(CRAFTED, k)
    if craft(p, kind, i, name, spec):
        return f'craft {kind}'


def op_reorder(p, i, seed):
    entries = [t for o in {id(o.toc): o for o in p.objects()}.values() for t in [o.toc] if len(t) > 3]
    t = _pick(entries, i)
    if t is None:
        return
    rest = t[2:]
    random.Random(seed).shuffle(rest)
    t[2:] = rest
    return f'reorder {KINDS[t[0]]}'


def op_rename(p, i, name):
    o = _pick(p.objects(), i)
    if o is None:
        return
    p.rename(o, name)
    return f'rename {o.kind}'


def op_synonym(p, i, pairs):
    o = _pick(p.objects(), i)
    if o is None:
        return
    rec = p.record(o)
    old = rec[3]
    rec[3] = [str(len(pairs))] + [quote(x) for pair in pairs for x in pair] + old[1 + 2 * int(old[0]):]
    return f'synonym {o.kind}'


def op_comment(p, i, text):
    o = _pick(p.objects(), i)
    if o is None:
        return
    p.record(o)[4] = quote(text)
    return f'comment {o.kind}'


def op_top_comment(p, text):
    """The comment of the product itself; without a version file nothing in it is a version."""
    p.top_record[4] = quote(text)
    return 'top comment'


def with_modules(p):
    return [o for o in p.objects() if o.kind in MODULES]


def op_module(p, i, j, text, form=0):
    """form: 0 folder with utf-8 BOM, 1 folder without BOM, 2 plain file, 3 folder in windows-1251, 4 file in windows-1251,
    5 a text in no known encoding, 6 encrypted, 7 encrypted and empty"""
    o = _pick(with_modules(p), i)
    if o is None:
        return
    name = _pick(sorted(MODULES[o.kind]), j)
    enc = ['utf-8-sig', 'utf-8', 'utf-8-sig', 'windows-1251', 'windows-1251', 'utf-8', 'utf-8', 'utf-8'][form]
    if enc == 'windows-1251':
        text = text.encode('windows-1251', 'replace').decode('windows-1251')
    if form == 5:
        text = b'\x98\xff\n' + text.encode()
    elif form == 7:
        text = ''
    p.put_module(o.uid, MODULES[o.kind][name], text, as_file=form in (2, 4), encoding=enc)
    if form > 5:
        body = p.main[f'{o.uid}.{MODULES[o.kind][name]}']
        body['image'] = body.pop('text')
    return f'module {o.kind}.{name}'


def area_text(k, reader=False, directive=''):
    """Include area number k; the text of an area of the same number is always the same."""
    name = ['а', 'core_б', 'lib_mod_в', 'core_г1', 'д'][k % 5] + (str(k // 5) if k >= 5 else '')
    body = f'// область {k}\n' + 'Процедура Область{0}()\n\tА = {0};\nКонецПроцедуры\n'.format(k)
    return f'#Область {"includr_" if reader else "include_"}{name}\n{body}#КонецОбласти\n'


def op_area_module(p, i, j, areas):
    """A module made of shared areas; the same number stands for the same text in every module."""
    o = _pick(with_modules(p), i)
    if o is None:
        return
    name = _pick(sorted(MODULES[o.kind]), j)
    text = '// начало\n' + '\n'.join(area_text(k % 12) for k in areas) + '// конец'
    p.put_module(o.uid, MODULES[o.kind][name], text.replace('\n', '\r\n'))
    return f'areas {o.kind}.{name}'


def op_top_module(p, j, text, form=0):
    table = TOP_MODULES[p.type]
    name = _pick(sorted(table), j)
    if p.base == 'P802':
        # a product of the old platform holds such lines only in the commented form the tool itself gives them
        text = old_platform(text)
    p.put_module(p.top_uid, table[name], text, as_file=form == 2)
    return f'top module {name}'


def attached(p):
    """[(uid, kind, names of the files that lie beside the object's own)] of all objects and the product itself"""
    rows = [(o.uid, o.kind) for o in p.objects()] + [(p.top_uid, p.type)]
    res = []
    for uid, kind in rows:
        names = sorted(n for n in p.main if n.startswith(uid + '.') and n != f'{uid}.configinfo')
        if names:
            res.append((uid, kind, names))
    return res


def op_drop(p, i, mask):
    """Some of the files beside an object are not there."""
    row = _pick(attached(p), i) if isinstance(i, int) else next((r for r in attached(p) if r[0] == i), None)
    if row is None:
        return
    for k, name in enumerate(row[2]):
        if mask >> k & 1:
            del p.main[name]
            p.trees.pop(name, None)
    return f'drop {row[1]}'


def drop_cases(bases=('C803', 'CE803', 'P803', 'P802', 'R803', 'apam')):
    """For every kind of object and set of files beside it, every part of that set is left out."""
    res, seen = [], set()
    for base in bases:
        p = Product(base)
        objs = p.objects()
        top = [o for o in objs if o.owner is None]
        of = {o.uid: o for o in objs}
        for uid, kind, names in attached(p):
            key = (kind, tuple(n[36:] for n in names), p.type)
            if key in seen:
                continue
            seen.add(key)
            o = of.get(uid)
            while o is not None and o.owner is not None:
                o = o.owner
            keep = [] if o is None else [top.index(o)]
            masks = range(1, 1 << len(names))
            for mask in masks if len(names) <= 4 else [1 << k for k in range(len(names))] + [(1 << len(names)) - 1 ^ 1 << k for k in range(len(names))]:
                res.append(dict(base=base, keep=keep, ops=[('drop', uid, mask)]))
    return res


def slots(kind):
    """[(what, number)] of the files that may lie beside an object of the kind"""
    res = [('module', n) for n in sorted(MODULES.get(kind, {}).values())]
    res += [('help', HELP[kind])] if kind in HELP else []
    res += [('payload', PAYLOAD[kind][0])] if kind in PAYLOAD else []
    res += [('info', INFO[kind])] if kind in INFO else []
    return res


def op_slots(p, uid, mask, as_file=False):
    """Exactly those of the files of an object are there whose bits are set."""
    o = next(o for o in p.objects() if o.uid == uid)
    for k, (what, number) in enumerate(slots(o.kind)):
        name = f'{uid}.{number}'
        p.trees.pop(name, None)
        if not mask >> k & 1:
            p.main.pop(name, None)
        elif what == 'module':
            if name not in p.main or as_file:
                p.put_module(uid, number, f'// модуль {number}\r\nА = {k};\r\n', as_file=as_file)
        elif what == 'help':
            p.main[name] = rb.serialise(help_tree(b'<p>%d</p>' % k), nl='\r\n').encode('utf-8-sig')
        elif what == 'payload':
            p.main[name] = b'payload %d' % k
        else:
            p.main[name] = rb.serialise(INFO_TREE, nl='\r\n').encode('utf-8-sig')
    return f'files of {o.kind}'


TOP_INFO = {'Configuration': ['4', '8', '9', '10', 'a', 'b', 'c', 'd', 'e', 'f'], 'ConfigurationExtension': ['8', '9', 'a']}


def op_top_slots(p, mask):
    """Exactly those of the files of the product itself are there whose bits are set."""
    rows = [('module', n) for n in sorted(TOP_MODULES[p.type].values())] + [('info', n) for n in TOP_INFO.get(p.type, [])]
    rows += [('help', '3')] if p.type == 'Configuration' else []
    for k, (what, number) in enumerate(rows):
        name = f'{p.top_uid}.{number}'
        p.trees.pop(name, None)
        if not mask >> k & 1:
            p.main.pop(name, None)
        elif what == 'module':
            p.put_module(p.top_uid, number, f'// модуль {number}\r\n')
        elif what == 'help':
            p.main[name] = rb.serialise(help_tree(b'<p></p>'), nl='\r\n').encode('utf-8-sig')
        else:
            p.main[name] = rb.serialise([['1', '1', quote(number)]], nl='\r\n').encode('utf-8-sig')
    return 'files of the product'


def top_slot_cases():
    res = []
    for base, n in (('C803', 15), ('CE803', 6), ('apam', 15), ('C803-16', 15)):
        full = (1 << n) - 1
        res += [dict(base=base, keep=[], ops=[('top_slots', m)])
                for m in sorted({0, full, *(1 << k for k in range(n)), *(full ^ 1 << k for k in range(n))})]
    return res


def slot_cases(bases=('C803', 'apam', 'CE803')):
    """For every kind of object: each of its files alone, each of them missing, all, none; modules as files."""
    res, seen = [], set()
    for base in bases:
        p = Product(base)
        objs = p.objects()
        top = [o for o in objs if o.owner is None]
        for o in objs:
            n = len(slots(o.kind))
            if not n or o.internal or o.kind in seen:
                continue
            seen.add(o.kind)
            x = o
            while x.owner is not None:
                x = x.owner
            full = (1 << n) - 1
            for mask in sorted({0, full, *(1 << k for k in range(n)), *(full ^ 1 << k for k in range(n))}):
                res.append(dict(base=base, keep=[top.index(x)], ops=[('slots', o.uid, mask)]))
            if o.kind in MODULES:
                res.append(dict(base=base, keep=[top.index(x)], ops=[('slots', o.uid, full, True)]))
    return res


def op_touch(p, i, j, how):
    """A small change of a module or payload that is there."""
    c = sorted(n for n, v in p.main.items() if isinstance(v, dict) and v.get('text'))
    if not c:
        return
    v = p.main[_pick(c, i)]
    try:
        text = v['text'].decode('utf-8')
    except UnicodeDecodeError:
        return
    nl = '\r\n' if '\r\n' in text else '\n'
    lines = text.replace('\r\n', '\n').split('\n')
    k = j % len(lines)
    if how == 0:
        lines.append('')
    elif how == 1:
        lines[-1] += ' '
    elif how == 2 and lines[-1] == '':
        lines.pop()
    elif how == 3:
        lines[k] = lines[k].swapcase()
    elif how == 4:
        lines[k] += ' '
    elif how == 5:
        lines.insert(1, '')
    elif how == 6:
        lines[k] = lines[k].replace('\t', ' ').replace('е', 'ё')
    elif how == 7:
        lines[k] = lines[k].replace('  ', ' ').replace('А', 'A')
    v['text'] = nl.join(lines).encode()
    return 'touch'


def old_platform(text):
    return re.sub(r'(^|\n)(?=#Область|#КонецОбласти|&НаСервере|&НаКлиенте)', r'\1// v8unpack ', text)


def help_tree(data):
    """Help page file: {a,{..},..,{#base64:...}}"""
    body = base64.b64encode(data).decode()
    return [['1', '1', '"ru"', ['#base64:' + body]]]


def op_help(p, i, spec):
    objs = [o for o in p.objects() if o.kind in HELP]
    o = _pick(objs, i)
    if o is None:
        return
    p.main[f'{o.uid}.{HELP[o.kind]}'] = rb.serialise(help_tree(gen.expand(spec)), nl='\r\n').encode('utf-8-sig')
    p.trees.pop(f'{o.uid}.{HELP[o.kind]}', None)
    return f'help {o.kind}'


def op_payload(p, i, spec):
    objs = [o for o in p.objects() if o.kind in PAYLOAD]
    o = _pick(objs, i)
    if o is None:
        return
    name = f'{o.uid}.{PAYLOAD[o.kind][0]}'
    p.main[name] = gen.expand(spec)
    if p.main[name][:4] == b'\xff\xff\xff\x7f':
        p.main[name] = b'x' + p.main[name]
    p.trees.pop(name, None)
    return f'payload {o.kind}'


def op_template(p, i, spec):
    """Replaces the content of a template by other content of the same type."""
    objs = [o for o in p.objects() if o.kind in ('Template', 'CommonTemplate')]
    o = _pick(objs, i)
    if o is None:
        return
    data = gen.expand(spec)
    kind = template_type(p, o)
    name = f'{o.uid}.0'
    p.trees.pop(name, None)
    if kind in ('base64', 'extension'):
        mark = '#base64:'
        p.main[name] = rb.serialise([['1', [mark + base64.b64encode(data).decode()]]], nl='\r\n').encode('utf-8-sig')
    elif kind == 'text':
        text = data.decode('utf-8', 'ignore').replace('\r', '\n').replace('\0', ' ').replace('\ufeff', '')
        p.main[name] = text.encode('utf-8-sig')
    elif kind == 'html':
        p.main[name] = rb.serialise(help_tree(data), nl='\r\n').encode('utf-8-sig')
    else:
        if data[:4] == b'\xff\xff\xff\x7f':
            data = b'x' + data
        p.main[name] = data
    return f'template {kind}'


def template_type(p, o):
    t = p.tree(o.file)
    return TEMPLATE_TYPES[t[0][1][2] if o.kind == 'CommonTemplate' else t[0][1][1]]


def picture_tree(spec, shape):
    """Picture file: with data (mostly), with an empty text or without any."""
    shape %= 8
    if shape == 5:
        return [['1', ['0', '0', '-1', '-1'], ['']]]
    if shape == 6:
        return [['1', ['0', '0', '-1', '-1'], [['']]]]
    if shape == 7:
        return [['1', ['0', '0', '-1', '-1'], [['#base64:']]]]
    return [['1', ['0', '0', '-1', '-1'], [['#base64:' + base64.b64encode(gen.expand(spec) or b'x').decode()]]]]


def op_picture(p, i, spec, shape=0):
    o = _pick([o for o in p.objects() if o.kind == 'CommonPicture' and f'{o.uid}.0' in p.main], i)
    if o is None:
        return
    p.main[f'{o.uid}.0'] = rb.serialise(picture_tree(spec, shape), nl='\r\n').encode('utf-8-sig')
    p.trees.pop(f'{o.uid}.0', None)
    return 'picture'


def op_splash(p, spec, shape=0):
    """The picture shown at the start of a configuration."""
    if p.type != 'Configuration':
        return
    p.main[f'{p.top_uid}.2'] = rb.serialise(picture_tree(spec, shape), nl='\r\n').encode('utf-8-sig')
    p.trees.pop(f'{p.top_uid}.2', None)
    return 'splash'


def op_info(p, i, tree):
    o = _pick([o for o in p.objects() if o.kind in INFO], i)
    if o is None:
        return
    name = f'{o.uid}.{INFO[o.kind]}'
    p.main[name] = rb.serialise(tree, nl='\r\n').encode('utf-8-sig')
    p.trees.pop(name, None)
    return f'info {o.kind}'


def leaves(tree, rec):
    """(list, index) of quoted strings outside the header record and outside of tables of contents."""
    for i, x in enumerate(tree):
        if isinstance(x, list):
            if x is not rec and not is_toc(x):
                yield from leaves(x, rec)
        elif x[:1] == '"':
            yield tree, i


def op_leaf(p, i, k, text):
    objs = [o for o in p.objects() if not o.internal and not o.kind.endswith('Form')]
    o = _pick(objs, i)
    if o is None:
        return
    cells = [c for c in leaves(p.tree(o.file), p.record(o))]
    if not cells:
        return
    lst, j = _pick(cells, k)
    lst[j] = quote(text)
    return f'property {o.kind}'


def op_form_text(p, i, k, text):
    """Replaces a title-like text of a managed form (not a name: names are bindings)."""
    objs = [o for o in p.objects() if o.kind.endswith('Form') and isinstance(p.main.get(f'{o.uid}.0'), bytes)]
    o = _pick(objs, i)
    if o is None:
        return
    if b'include_' in p.main[f'{o.uid}.0']:
        return  # shared areas must stay equal in all forms
    try:
        t = p.tree(f'{o.uid}.0')
    except (rb.BraceError, UnicodeDecodeError):
        return
    cells = []

    def walk(x):
        if not isinstance(x, list):
            return
        if len(x) >= 3 and x[0] == '1' and x[1] == '1' or (len(x) == 3 and x[0] == '"ru"'):
            pass
        for j, y in enumerate(x):
            if isinstance(y, list):
                walk(y)
            elif y == '"ru"' and j + 1 < len(x) and isinstance(x[j + 1], str) and x[j + 1][:1] == '"':
                cells.append((x, j + 1))
    walk(t)
    c = _pick(cells, k)
    if c is None:
        return
    c[0][c[1]] = quote(text)
    return f'form title {o.kind}'


FORM_SHAPES = [
    [['5', '"x"', '"код"', ['1', '2']]],
    [[['1', '2'], ['3', ['22', '1', '2', '3', '4', '5', '"Процедура А() ""x"" КонецПроцедуры"', 'a', 'b', 'c', 'd', 'e', '0', '0']]]],
    [['7', ['22', '1', '2', '3', '4', '5', '"Процедура А()\r\nКонецПроцедуры"', 'a', 'b', 'c', 'd', 'e', '0', '0']]],
    [['7', ['49', '1']]], [['7', ['4', '1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '11']]],
    [['7', ['5', '1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '11']]], [['4', ['1'], '"А = 1;"']],
    [['2', ['1'], '"Б = ""x"";"', 'x']], [['50', ['1', ['2', '3']], '"В"', ['0']]], None]


def op_form_shape(p, i, k):
    """A form in a layout of another version of the platform, or without a form file."""
    objs = [o for o in p.objects() if o.kind.endswith('Form') and f'{o.uid}.0' in p.main]
    o = _pick(objs, i)
    if o is None or b'include_' in form_text(p, o).encode():
        return
    name = f'{o.uid}.0'
    shape = _pick(FORM_SHAPES, k)
    if shape is None:
        del p.main[name]
    elif isinstance(p.main[name], dict):
        p.main[name] = dict(p.main[name], form=rb.serialise(shape, nl='\r\n').encode('utf-8-sig'))
    else:
        p.main[name] = rb.serialise(shape, nl='\r\n').encode('utf-8-sig')
    p.trees.pop(name, None)
    return 'form shape'


def op_form_old(p, i):
    """The record of an ordinary form as older platforms write it: without the type of the form."""
    objs = [o for o in p.objects() if o.kind.endswith('Form') and isinstance(p.main.get(f'{o.uid}.0'), dict)]
    o = _pick(objs, i)
    if o is None:
        return

    def walk(x):
        for y in x:
            if isinstance(y, list):
                if len(y) > 3 and y[0] in ('9', '13') and isinstance(y[1], list) and find_record(y[1:2], o.uid) is not None \
                        and all(isinstance(z, str) for z in y[2:]):
                    del y[3:]
                    return True
                if walk(y):
                    return True
    return 'form without a type' if walk(p.tree(o.file)) else None


def op_form_module(p, i, text):
    """Sets the module of a managed form."""
    objs = [o for o in p.objects() if o.kind.endswith('Form') and isinstance(p.main.get(f'{o.uid}.0'), bytes)]
    o = _pick(objs, i)
    if o is None:
        return
    try:
        t = p.tree(f'{o.uid}.0')
    except (rb.BraceError, UnicodeDecodeError):
        return
    if not (len(t[0]) > 2 and t[0][0] in ('4', '3', '2') and isinstance(t[0][2], str) and t[0][2][:1] == '"'):
        return
    t[0][2] = quote(text)
    return f'form module {o.kind}'


# ---------------------------------------------------------------------------------------------- strategies
_line = st.one_of(
    st.sampled_from(['', 'Процедура Тест() Экспорт', 'КонецПроцедуры', '#Область Код', '#КонецОбласти', '&НаКлиенте',
                     '&НаСервере', '// комментарий', 'А = "строка ""в кавычках""";', '\tВозврат {1,2};', '#Если Сервер Тогда',
                     '#КонецЕсли', '  ', 'Сообщить("#Область include_х");', '"{', '},', '// v8unpack', '#base64:AAAA',
                     'Х = 1; // include_a', '#Вставка', '|многострочная"']),
    st.text(st.sampled_from('абвXYZ01 "\'{},;=()\t№€'), max_size=30),
    st.text(st.characters(blacklist_categories=('Cs',), blacklist_characters='\r\n\ufeff\0'), max_size=12),
    st.text(st.sampled_from('аЯx 1;\x0b\x0c\x1c\x1e\x85\u2028\u2029'), max_size=8))


def module_texts(max_lines=8):
    """Module texts without shared areas; line ends LF or CRLF, with or without the last one."""
    def build(lines, nl, tail):
        text = nl.join(lines) + (nl if tail else '')
        return text
    return st.builds(build, st.lists(_line, max_size=max_lines), st.sampled_from(['\r\n', '\n']), st.booleans())


def any_texts():
    """Comments and properties: no line breaks in most cases."""
    return st.one_of(st.text(st.sampled_from('абвXYZ019 .,;:!"\'{}()№-'), max_size=20),
                     st.text(st.characters(blacklist_categories=('Cs',), blacklist_characters='\r\0\ufeff'), max_size=15),
                     st.sampled_from(['', 'txt', 'картинка png', 'a.b', '"', '{', 'xml ', 'a' * 70, 'Макет   pdf',
                                      'длинное слово', 'x json', 'x id', 'bin']))


INT = st.integers(0, 200)


version_texts = st.one_of(any_texts(), st.sampled_from(['ver:', 'ver:1.2;основная', 'сборка ver:файл.epf:1.1 "а"', 'over: 1']))


def ops(contents=None, extra=()):
    contents = contents or gen.content_specs(5000)
    name = gen.identifiers(10)
    one = [
        st.tuples(st.just('clone'), INT, name),
        st.tuples(st.just('clone'), INT, name),
        st.tuples(st.just('remove'), INT),
        st.tuples(st.just('craft'), INT, INT, name, contents),
        st.tuples(st.just('reorder'), INT, INT),
        st.tuples(st.just('rename'), INT, name),
        st.tuples(st.just('synonym'), INT, st.lists(st.tuples(st.sampled_from(['ru', 'en', 'de']), any_texts()),
                                                    max_size=3, unique_by=lambda t: t[0])),
        st.tuples(st.just('comment'), INT, any_texts()),
        st.tuples(st.just('comment'), INT, version_texts),
        st.tuples(st.just('top_comment'), version_texts),
        st.tuples(st.just('module'), INT, INT, module_texts(), st.integers(0, 3)),
        st.tuples(st.just('module'), INT, INT, module_texts(), st.integers(0, 7)),
        st.tuples(st.just('top_module'), INT, module_texts()),
        st.tuples(st.just('help'), INT, contents),
        st.tuples(st.just('payload'), INT, contents),
        st.tuples(st.just('template'), INT, contents),
        st.tuples(st.just('picture'), INT, contents, st.integers(0, 7)),
        st.tuples(st.just('splash'), contents, st.integers(0, 7)),
        st.tuples(st.just('leaf'), INT, INT, any_texts()),
        st.tuples(st.just('form_text'), INT, INT, any_texts()),
        st.tuples(st.just('form_module'), INT, module_texts()),
    ]
    return st.one_of(*one, *extra)


BASES = ['C803', 'C803', 'C803', 'C803-16', 'CE803', 'P803', 'R803', 'apam', 'apam_old', 'P802']


def cases(bases=BASES, max_ops=8, max_keep=5, extra=()):
    return st.fixed_dictionaries(dict(
        base=st.sampled_from(bases),
        keep=st.one_of(st.lists(INT, min_size=1, max_size=max_keep), st.lists(INT, min_size=1, max_size=max_keep),
                       st.lists(INT, min_size=1, max_size=max_keep), st.none()),
        ops=st.lists(ops(extra=extra), max_size=max_ops)))
