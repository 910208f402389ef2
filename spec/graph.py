"""Reference semantics of pygmo_fwork/optichem/graph.py.  Parsed, never executed."""
from typing import Dict, Set, Tuple, Callable, List, Union
import numpy as np
import pandas as pd
from pygmo_fwork.pygmol.model_parameters import ModelParameters
from plaschem.chemistry import Chemistry
from pygmo_fwork.optichem.exceptions import GraphInitError

class Graph(object):

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def __init__(self):
        self.nodes: Set[str] = set([])
        self.node_attributes: Dict[str, Dict[str, float]] = {}
        self.edges: Set[Tuple[str, str]] = set([])
        self.edge_attributes: Dict[Tuple[str, str], Dict[str, float]] = {}
        self.successors: Dict[str, Set[str]] = {}
        self.predecessors: Dict[str, Set[str]] = {}
        self.weights_distributed: bool = False

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def get_nodes(self) -> Set[str]:
        return self.nodes

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def update_node_attributes(self, node: str, **attributes: float) -> None:
        self.node_attributes[node].update(attributes)

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def get_node_attributes(self, node: str) -> Dict[str, float]:
        return self.node_attributes[node]

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def add_node(self, node: str) -> None:
        if node not in self.nodes:
            self.nodes.add(node)
            self.node_attributes[node] = {}
            self.successors[node] = set([])
            self.predecessors[node] = set([])

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def add_edge(self, u: str, v: str) -> None:
        for node in (u, v):
            if node not in self.nodes:
                self.nodes.add(node)
                self.node_attributes[node] = {}
                self.successors[node] = set([])
                self.predecessors[node] = set([])
        if (u, v) not in self.edges:
            self.successors[u].add(v)
            self.predecessors[v].add(u)
            self.edges.add((u, v))
            self.edge_attributes[u, v] = {}

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def has_edge(self, u: str, v: str) -> bool:
        return (u, v) in self.edges

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def get_edges(self) -> Set[Tuple[str, str]]:
        return self.edges

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def update_edge_attributes(self, u: str, v: str, **attributes: float) -> None:
        if 'weight' in attributes:
            assert attributes['weight'] > 0, 'Edge weight must be positive for each edge!'
        self.edge_attributes[u, v].update(attributes)

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def get_edge_attributes(self, u: str, v: str) -> Dict[str, float]:
        return self.edge_attributes[u, v]

    @spec('O33')
    @staticmethod
    def _default_weighting_functions(weighting_func: Callable=None, inverse: Callable=None) -> Tuple[Callable, Callable]:
        if weighting_func is not None:
            assert inverse is not None, 'Both weighting function and its inverse need to be defined!'
        if inverse is not None:
            assert weighting_func is not None, 'Both weighting function and its inverse need to be defined!'
        if weighting_func is None:
            return (lambda x: x, lambda x: x)
        else:
            return (weighting_func, inverse)

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def find_max_bottleneck_paths(self, target_node: str, edge_attribute: str='weight', weighting_func: Callable=None, inverse: Callable=None) -> Tuple[Dict[str, List[str]], Dict[str, float]]:
        assert self.weights_distributed, 'Cannot run any graph theory algorithms - weights not yet distributed!'
        weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
        widths = {node: float('inf') if node == target_node else 0.0 for node in self.get_nodes()}
        successors = {node: None for node in self.get_nodes()}
        unrelaxed = set(self.get_nodes())
        while len(unrelaxed):
            priority_queue = sorted(unrelaxed, key=lambda x: widths[x], reverse=True)
            node = priority_queue[0]
            unrelaxed.remove(node)
            for predecessor in self.predecessors[node]:
                if predecessor in unrelaxed:
                    edge_width = weighting_func(self.get_edge_attributes(predecessor, node)[edge_attribute])
                    assert edge_width >= 0, 'Algo works only with non-negative edge weights!'
                    alt_width = min(widths[node], edge_width)
                    if alt_width > widths[predecessor]:
                        widths[predecessor] = alt_width
                        successors[predecessor] = node
        paths = {source: [source] for source in self.get_nodes()}
        for source in self.get_nodes():
            while paths[source][-1] != target_node and paths[source][-1] is not None:
                paths[source].append(successors[paths[source][-1]])
        widths = {node: inverse(widths[node]) for node in widths}
        return (paths, widths)

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def find_shortest_paths(self, target_node: str, edge_attribute: str='weight', weighting_func: Callable=None, inverse: Callable=None) -> Tuple[Dict[str, List[str]], Dict[str, float]]:
        assert self.weights_distributed, 'Cannot run any graph theory algorithms - weights not yet distributed!'
        weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
        lengths = {node: 0 if node == target_node else float('inf') for node in self.get_nodes()}
        successors = {node: None for node in self.get_nodes()}
        unrelaxed = set(self.get_nodes())
        while len(unrelaxed):
            priority_queue = sorted(unrelaxed, key=lambda x: lengths[x])
            node = priority_queue[0]
            unrelaxed.remove(node)
            for predecessor in self.predecessors[node]:
                if predecessor in unrelaxed:
                    edge_length = weighting_func(self.get_edge_attributes(predecessor, node)[edge_attribute])
                    assert edge_length >= 0, 'Algo works only with non-negative edge weights!'
                    alt_length = lengths[node] + edge_length
                    if alt_length < lengths[predecessor]:
                        lengths[predecessor] = alt_length
                        successors[predecessor] = node
        paths = {source: [source] for source in self.get_nodes()}
        for source in self.get_nodes():
            while paths[source][-1] != target_node and paths[source][-1] is not None:
                paths[source].append(successors[paths[source][-1]])
        lengths = {node: inverse(lengths[node]) if lengths[node] > 0 else np.nan for node in lengths}
        return (paths, lengths)

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def get_max_flow(self, source_node: str, target_node: str, edge_attribute: str='weight', weighting_func: Callable=None, inverse: Callable=None) -> float:
        assert self.weights_distributed, 'Cannot run any graph theory algorithms - weights not yet distributed!'
        weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
        nodes = sorted(self.get_nodes())
        capacity = pd.DataFrame(index=nodes, columns=nodes)
        for u in self.get_nodes():
            for v in self.get_nodes():
                if self.has_edge(u, v):
                    edge_capacity = weighting_func(self.get_edge_attributes(u, v)[edge_attribute])
                    assert edge_capacity >= 0, 'Algo works only with non-negative edge weights!'
                    capacity.at[u, v] = edge_capacity
        capacity = capacity.fillna(0.0)
        max_flow = 0
        while True:
            predecessor = {}
            visited = {source_node}
            priority_queue = [source_node]
            path_exists = False
            while len(priority_queue) and (not path_exists):
                u = priority_queue.pop(0)
                for v in capacity.loc[u].index:
                    remaining_cap = capacity.at[u, v]
                    if v not in visited and remaining_cap > 0:
                        priority_queue.append(v)
                        visited.add(v)
                        predecessor[v] = u
                        if v == target_node:
                            path_exists = True
                            break
            if path_exists:
                path_flow = float('Inf')
                s = target_node
                while s != source_node:
                    path_flow = min(path_flow, capacity.at[predecessor[s], s])
                    s = predecessor[s]
                max_flow += path_flow
                v = target_node
                while v != source_node:
                    u = predecessor[v]
                    capacity.at[u, v] -= path_flow
                    capacity.at[v, u] += path_flow
                    v = predecessor[v]
            else:
                break
        return inverse(max_flow)

class ChemistryGraph(object):

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def __init__(self, chemistry: Chemistry, model_params: Union[dict, ModelParameters], rates_frames: pd.DataFrame, wall_fluxes_frames: pd.DataFrame) -> None:
        self.assert_input_consistency(chemistry, rates_frames, wall_fluxes_frames)
        self.r = model_params['radius']
        self.z = model_params['length']
        self.vol = np.pi * self.r ** 2 * self.z
        self.area = 2 * np.pi * self.r * (self.r + self.z)
        self.special_species = np.array([sp.get_name() for sp in chemistry.get_special_species()])
        self.species = np.array(chemistry.get_species_name(special=True))
        self.reactions = np.array(chemistry.get_reactions_id())
        self.important_times = np.array(rates_frames['t'])
        self.stick_coefs = chemistry.get_species_stick_coef(special=True).fillna(0.0).values
        self.ret_matrix = chemistry.get_return_matrix(special=True).fillna(0.0).values
        self.rates = rates_frames.drop(columns='t').values
        self.wall_fluxes = pd.DataFrame(index=wall_fluxes_frames.index, columns=['t'] + list(self.species)).fillna(0.0)
        self.wall_fluxes.loc[wall_fluxes_frames.index, wall_fluxes_frames.columns] = wall_fluxes_frames.loc[wall_fluxes_frames.index, wall_fluxes_frames.columns]
        self.wall_fluxes = self.wall_fluxes.drop(columns='t').values
        self.stoichiomatrix_lhs = chemistry.get_stoichiomatrix(special=True, method='lhs').values
        self.stoichiomatrix_rhs = chemistry.get_stoichiomatrix(special=True, method='rhs').values
        self.stoichiomatrix_net = self.stoichiomatrix_rhs - self.stoichiomatrix_lhs
        self.delta_ji = np.array(self.stoichiomatrix_lhs + self.stoichiomatrix_rhs > 0, dtype=int)
        self.graphs = []

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    @staticmethod
    def assert_input_consistency(chemistry: Chemistry, rates_frames: pd.DataFrame, wall_fluxes_frames: pd.DataFrame) -> None:
        stoichiomatrix_lhs = chemistry.get_stoichiomatrix(special=True, method='lhs')
        stoichiomatrix_rhs = chemistry.get_stoichiomatrix(special=True, method='rhs')
        species_ids = chemistry.get_species_id(special=True)
        reactions_ids = chemistry.get_reactions_id()
        if list(rates_frames['t']) != list(wall_fluxes_frames['t']):
            raise GraphInitError('Rates and wall fluxes have inconsistent time stamps!')
        if list(stoichiomatrix_lhs.columns) != list(species_ids):
            raise GraphInitError('stoichiomatrix from chemistry inconsistent with species from chemistry!')
        if list(stoichiomatrix_rhs.columns) != list(species_ids):
            raise GraphInitError('stoichiomatrix from chemistry inconsistent with species from chemistry!')
        if list(stoichiomatrix_lhs.index) != list(reactions_ids):
            raise GraphInitError('stoichiomatrix inconsistent with reactions!')
        if list(stoichiomatrix_rhs.index) != list(reactions_ids):
            raise GraphInitError('stoichiomatrix inconsistent with reactions!')
        if list(rates_frames.columns) != ['t'] + list(reactions_ids):
            raise GraphInitError('Rates frames inconsistent with reactions!')
        if list(wall_fluxes_frames.columns) != ['t'] + list(chemistry.get_species_name(special=False)):
            raise GraphInitError('Wall fluxes frames inconsistent with species!')
        if list(chemistry.get_return_matrix(special=True).index) != list(species_ids):
            raise GraphInitError('Return matrix inconsistent with species!')
        if list(chemistry.get_return_matrix(special=True).columns) != list(species_ids):
            raise GraphInitError('Return matrix inconsistent with species!')
        if list(chemistry.get_species_stick_coef(special=True).index) != list(species_ids):
            raise GraphInitError('Sticking coefficients inconsistent with species!')

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def init_graphs(self) -> List[Graph]:
        return [Graph() for _ in self.important_times]

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def distribute_weights(self, weighting_method: str='DRG', surface: bool=True) -> None:
        self.graphs = self.init_graphs()
        if surface:
            stick_rates = self.wall_fluxes * self.area / self.vol
            ret_rates = -self.ret_matrix[np.newaxis, :, :] * stick_rates[:, np.newaxis, :]
            ret_rates = np.swapaxes(ret_rates, 1, 2)
            surf_rates = np.zeros(ret_rates.shape)
            surf_rates[:, np.arange(surf_rates.shape[1]), np.arange(surf_rates.shape[2])] += stick_rates
            surf_rates += ret_rates
        else:
            surf_rates = np.zeros((len(self.important_times), len(self.species), len(self.species)))
        if weighting_method in {'DRG', 'DRG1'}:
            r = (abs(self.stoichiomatrix_net[np.newaxis, :, np.newaxis, :]) * self.rates[:, :, np.newaxis, np.newaxis] * self.delta_ji[np.newaxis, :, :, np.newaxis]).sum(axis=1)
            r += abs(surf_rates)
        elif weighting_method in {'DRG2', 'DRGEP'}:
            r = (self.stoichiomatrix_net[np.newaxis, :, np.newaxis, :] * self.rates[:, :, np.newaxis, np.newaxis] * self.delta_ji[np.newaxis, :, :, np.newaxis]).sum(axis=1)
            r += surf_rates
            r = abs(r)
        else:
            raise NotImplementedError('Unrecognised weighting method: {}'.format(weighting_method))
        r[r == 0] = np.nan
        if weighting_method == 'DRG':
            norm = (abs(self.stoichiomatrix_net[np.newaxis, :, :]) * self.rates[:, :, np.newaxis]).sum(axis=1) + np.sum(abs(surf_rates), axis=1)
        elif weighting_method in {'DRG1', 'DRG2'}:
            norm = (self.stoichiomatrix_net[np.newaxis, :, :] * self.rates[:, :, np.newaxis]).sum(axis=1) + surf_rates.sum(axis=1)
            norm = abs(norm)
        elif weighting_method == 'DRGEP':
            stoich_net_prod = self.stoichiomatrix_net.copy()
            stoich_net_prod[stoich_net_prod < 0] = 0
            surf_rates_prod = surf_rates.copy()
            surf_rates_prod[surf_rates_prod < 0] = 0
            stoich_net_cons = -self.stoichiomatrix_net.copy()
            stoich_net_cons[stoich_net_cons < 0] = 0
            surf_rates_cons = -surf_rates.copy()
            surf_rates_cons[surf_rates_cons < 0] = 0
            tot_prod = (stoich_net_prod[np.newaxis, :, :] * self.rates[:, :, np.newaxis]).sum(axis=1) + surf_rates_prod.sum(axis=1)
            tot_cons = (stoich_net_cons[np.newaxis, :, :] * self.rates[:, :, np.newaxis]).sum(axis=1) + surf_rates_cons.sum(axis=1)
            assert (tot_prod >= 0).all()
            assert (tot_cons >= 0).all()
            norm = np.maximum(tot_prod, tot_cons)
        else:
            raise NotImplementedError('Unrecognised weighting method: {}'.format(weighting_method))
        norm[norm == 0] = np.nan
        r /= norm[:, np.newaxis, :]
        for t_i, t in enumerate(self.important_times):
            graph = self.graphs[t_i]
            for a in self.species:
                graph.add_node(a)
            for a_i, a in enumerate(self.species):
                for b_i, b in enumerate(self.species):
                    if a != b:
                        weight = r[t_i, b_i, a_i]
                        if not np.isnan(weight):
                            graph.add_edge(b, a)
                            graph.update_edge_attributes(b, a, weight=weight)
            graph.weights_distributed = True

    @spec('O33', aspects='returns raises signature fields effects', fields='*')
    def get_ranking(self, important_species: List[str], search_method: str='shortest_path') -> pd.Series:
        if not len(self.graphs):
            raise ValueError('Chemistry graphs have not been built yet, distribute_weights() must be called first!')
        static_species = set(important_species) | set(self.special_species)
        assessed_species = self.species[[sp not in static_species for sp in self.species]]
        ranking_all = pd.DataFrame(columns=assessed_species)
        for important_sp in important_species:
            for t_i, important_time in enumerate(self.important_times):
                graph = self.graphs[t_i]
                index = '{} ({:.3e})'.format(important_sp, important_time)
                if search_method == 'max_bottleneck':
                    paths, scores = graph.find_max_bottleneck_paths(target_node=important_sp, edge_attribute='weight')
                elif search_method == 'shortest_path':
                    paths, scores = graph.find_shortest_paths(target_node=important_sp, edge_attribute='weight', weighting_func=lambda x: 1 / x, inverse=lambda x: 1 / x)
                elif search_method == 'max_product':
                    paths, scores = graph.find_shortest_paths(target_node=important_sp, edge_attribute='weight', weighting_func=lambda x: np.log(1 / x), inverse=lambda x: 1 / np.exp(x))
                elif search_method == 'max_flow':
                    scores = {}
                    for sp in assessed_species:
                        max_flow = graph.get_max_flow(source_node=sp, target_node=important_sp, edge_attribute='weight')
                        scores[sp] = max_flow
                else:
                    raise ValueError('Unrecognised search method: {}'.format(search_method))
                ranking_all.loc[index, :] = scores
        ranking = ranking_all.max(axis=0)
        ranking = ranking[sorted(ranking.index)]
        ranking = ranking.sort_values(ascending=True)
        return ranking
