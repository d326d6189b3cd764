From 9e8da3bd35f121041edede51ab7c981730d48d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 01/22] fix: do not remove 'optimize' from the caller's
 conditions list

---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fc4238b..a4d2aae 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -48,7 +48,7 @@ class BaseFitness(ABC):
         self.obj_value = obj_value
         self.input_data = input_data
         self.penalty = penalty
-        self.conditions = ['optimize'] if conditions is None else conditions
+        self.conditions = ['optimize'] if conditions is None else list(conditions)
         self.check_task()
 
     def set_opt_value(self) -> None:
-- 
2.43.0


From e6a7a2b1ef9abe0b6a6295209447b7780001a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 02/22] fix: pass falsy input_data (0, '', [], numpy arrays) to
 the objective function

---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index a4d2aae..acffe2c 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -118,7 +118,7 @@ class BaseFitness(ABC):
         :param genotype: the genotype of an individual.
         :return: one or more values.
         """
-        if self.input_data:
+        if self.input_data is not None:
             values = self.obj_function(self.input_data, genotype)
         else:
             values = self.obj_function(genotype)
-- 
2.43.0


From 69682d4d96824b0e192bb42178fdbecb657ec2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 03/22] fix: accept an objective function that returns its
 single value in a sequence

---
 baumeva/ga/fitness/base_fitness.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index acffe2c..2fdebab 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -108,6 +108,7 @@ class BaseFitness(ABC):
                 if len(values) > 1:
                     raise Exception(f'Number of returned values from objective function for non-conditional'
                                     f' optimization must be equal 1')
+                return values[0]
             except TypeError:
                 return values
 
-- 
2.43.0


From 2bbd87b46f5daefc22147f3dbd21c3a46b211d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 04/22] fix: CategoricalMutation accepts 'weak', 'normal' and
 'strong' (the default raised AttributeError)

---
 baumeva/ga/mutations/categorical_mutation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index a7e4128..71835b2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -22,8 +22,8 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         if type(self.mutation_lvl) is str:
-            if self.mutation_lvl in self.mutation_map.keys():
-                self.mutation_lvl = self.mutation_map[self.mutation_lvl]
+            if self.mutation_lvl in ['weak', 'normal', 'strong']:
+                pass
             else:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
@@ -91,5 +91,6 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
             self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
-- 
2.43.0


From c70cf4330c36bebc8403cc8b536476a201de3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 05/22] fix: a mutation level of 0 never mutates (the draw was
 compared one sample too high)

---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index a7b8505..449a663 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -48,7 +48,7 @@ class BaseCombinatoryMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 09d73ef..d51ffd1 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -56,7 +56,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 71835b2..464caf2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -56,7 +56,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 8ca01bf4eadce5332941600f6b2f644695d40c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 06/22] fix: keep the objectives' order in constrained
 multi-objective runs (they were paired with the wrong obj_value)

---
 baumeva/ga/fitness/multi_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 1e36a18..eafaafe 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -88,7 +88,7 @@ class MultiFitness(BaseFitness):
         """
         individ['obj_score'] = []
         for idx in self.__idx_opt_value:
-            individ['obj_score'].append(values.pop(idx))
+            individ['obj_score'].insert(0, values.pop(idx))
 
     def inferior(self, x: dict, y: dict) -> Union[dict, None]:
         """
-- 
2.43.0


From 4d168e10d0e4fd59d0ff2788276dc5daefd28b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 07/22] fix: pass input_data to the objective function when
 ranking and when VEGA counts the objectives

---
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 baumeva/vega.py                     | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index eafaafe..e61f48a 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -98,8 +98,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = list(self.obj_function(x['phenotype']))
-        y_score = list(self.obj_function(y['phenotype']))
+        x_score = self.calc_obj_func(x['phenotype'])
+        y_score = self.calc_obj_func(y['phenotype'])
 
         if x_score == y_score:
             return None
diff --git a/baumeva/vega.py b/baumeva/vega.py
index 67ce193..24678d4 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -69,8 +69,6 @@ class VEGA:
         :return: GaData
         """
         # init GaData & Population
-        num_objectives = len(self.obj_function([0]*len(self.gens))) if self.conditions is None\
-            else self.conditions.count('optimize')
         ga_data = MultiGaData(num_generations=self.num_generations, children_percent=self.children_percent,
                               early_stop=self.early_stop)
         if self.is_gray:
@@ -83,12 +81,14 @@ class VEGA:
         fitness_func = VEGAHyperbolaFitness(obj_function=self.obj_function, obj_value=self.obj_value,
                                             input_data=self.input_data, penalty=self.penalty,
                                             conditions=self.conditions)
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
         cross = OnePointCrossover()
         mutation = BinStringMutation(mutation_lvl=self.mutation_lvl)
         new_generation = NewGeneration(transfer_parents=self.transfer_parents)
         # creating first generation
         population.fill()
+        num_objectives = len(fitness_func.calc_obj_func(population[0]['phenotype'])) if self.conditions is None\
+            else self.conditions.count('optimize')
+        selection = VEGATournamentSelection(num_objectives=num_objectives)
         ga_data.population = population
         fitness_func.execute(ga_data=ga_data)
         ga_data.update()
-- 
2.43.0


From 9ea33005b8e598db358ba4ad771e7dc1c12cc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 08/22] fix: VEGA uses its tournament_size parameter

---
 baumeva/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index 24678d4..5f6f1ba 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -88,7 +88,7 @@ class VEGA:
         population.fill()
         num_objectives = len(fitness_func.calc_obj_func(population[0]['phenotype'])) if self.conditions is None\
             else self.conditions.count('optimize')
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
+        selection = VEGATournamentSelection(num_objectives=num_objectives, tournament_size=self.tournament_size)
         ga_data.population = population
         fitness_func.execute(ga_data=ga_data)
         ga_data.update()
-- 
2.43.0


From 1db02c65f2d5927d272122e330dce15fdd69ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 09/22] fix: multi-objective history keeps snapshots, not
 individuals that later generations modify

---
 baumeva/ga/multi_ga_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index 2aa0b4d..d66ce28 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -48,7 +48,7 @@ class MultiGaData(GaData):
             else:
                 break
 
-        self.historical_best.append(pareto_set)
+        self.historical_best.append(deepcopy(pareto_set))
 
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
-- 
2.43.0


From 398e3ba898be3cc63a33702c8fb575cf65a8b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 10/22] fix: FFGA fitness of transferred parents follows their
 rank in the current generation

---
 baumeva/ga/fitness/ffga_fitness.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/baumeva/ga/fitness/ffga_fitness.py b/baumeva/ga/fitness/ffga_fitness.py
index f90cfa1..f0b7e2e 100644
--- a/baumeva/ga/fitness/ffga_fitness.py
+++ b/baumeva/ga/fitness/ffga_fitness.py
@@ -36,3 +36,6 @@ class FFGAFitness(MultiFitness):
         """
 
         super().execute(ga_data)
+        # ranks are reassigned every generation, so the scores of transferred parents must follow
+        for individ in ga_data.population:
+            individ['score'] = self.get_fitness_score(individ)
-- 
2.43.0


From 97bf513d0df7b81f3cec9bd97df7608cee647334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 11/22] fix: VEGA balanced and ranked selection keep the
 parents of every objective, not only of the last

---
 baumeva/ga/selections/vega_balanced_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 896c1cd..4185ea7 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -1,4 +1,5 @@
 from .balanced_selection import BalancedSelection
+from .base_selection import BaseSelection
 from baumeva.ga import MultiGaData
 
 
@@ -51,5 +52,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
+        BaseSelection.execute(self, ga_data)
         for self.idx in range(self.num_objectives):
-            super().execute(ga_data)
+            self.add_probabilities(ga_data)
+            self.balanced_selection(ga_data)
-- 
2.43.0


From 9f7859d8e78617cea8640604592976c2ba34a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 12/22] fix: ranked selection no longer takes a first score of
 -1 for a tie

---
 baumeva/ga/selections/ranked_selection.py      | 2 +-
 baumeva/ga/selections/vega_ranked_selection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index f961294..1acb1e6 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -25,7 +25,7 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index cd7d837..7de4291 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -25,7 +25,7 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
-- 
2.43.0


From 85827a5f83c0f341e5aa1366673e0ce1e23f2aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 13/22] fix: VEGARankedSelection ranks individuals by the
 current objective's score, not by their position

---
 baumeva/ga/selections/vega_ranked_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index 7de4291..2f98fa8 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -25,6 +25,7 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        ga_data.population.sort(key=lambda ind: ind['score'][self.idx])
         prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
-- 
2.43.0


From 0f888d9bd0c385de4ef93bce36ebd75a3acd385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 14/22] fix: StaticPenalty penalises violated constraints with
 the coefficient of their interval

---
 baumeva/ga/penalties/static_penalty.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/baumeva/ga/penalties/static_penalty.py b/baumeva/ga/penalties/static_penalty.py
index 62ec694..e0fe65b 100644
--- a/baumeva/ga/penalties/static_penalty.py
+++ b/baumeva/ga/penalties/static_penalty.py
@@ -43,23 +43,25 @@ class StaticPenalty(BasePenalty):
 
         for i, conditional in enumerate(conditionals):
             if conditional == '!=':
-                if values[i] != 0:
+                if values[i] == 0:
                     res = 0
                     continue
                 for idx, val in enumerate(self.equality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
+                    if val[0] < abs(values[i]) <= val[1]:
                         res = self.equality_r_coef[i][idx] * abs(values[i])
-                    else: 
-                        raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
+                        break
+                else:
+                    raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
             elif conditional == '<=':
                 if values[i] <= 0:
                     res = 0
                     continue
                 for idx, val in enumerate(self.inequality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * max(0, values[i])
-                    else:
-                        raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
+                    if val[0] < values[i] <= val[1]:
+                        res = self.inequality_r_coef[i][idx] * max(0, values[i])
+                        break
+                else:
+                    raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
             else:
                 raise Exception(f'Unexpected sign for conditionals: {conditional}, please use "!=" or "<="')
             self.sum_conditional += res ** self.power
-- 
2.43.0


From 71b8638466e80c77ced11069daea4bd3be2a7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:44 +0000
Subject: [PATCH 15/22] fix: FFGA with random parent transfer no longer fails
 on populations of ten or fewer

---
 baumeva/ga/multi_new_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_new_generation.py b/baumeva/ga/multi_new_generation.py
index e04d2b9..423c70a 100644
--- a/baumeva/ga/multi_new_generation.py
+++ b/baumeva/ga/multi_new_generation.py
@@ -39,7 +39,7 @@ class MultiNewGeneration(NewGeneration):
         # if not ga_data.population.is_sorted:
         #     ga_data.population.sort_by_dict('rank')
 
-        self.add_parents(ga_data, num_elites=10)
+        self.add_parents(ga_data, num_elites=min(10, len(ga_data.population) - 1))
 
         ga_data.population = ga_data.children
         ga_data.population.is_sorted = False
-- 
2.43.0


From c2aff7e042b8dfacf990e0db47499b6e6344c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:26 +0000
Subject: [PATCH 16/22] fix: a parent that replaces a duplicate elite is a
 copy, not the same individual twice (its Pareto rank was counted twice)

---
 baumeva/ga/new_generation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index 64d964c..52a5732 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from random import sample
 from .ga_data import GaData
 
@@ -52,7 +53,7 @@ class NewGeneration:
 
                 z_counter += 1
                 if -num_elites - 1 - z_counter < 0:
-                    elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))
+                    elites[0:0] = deepcopy(sample(ga_data.population, num_elites + 1 - len(elites)))
                     break
                 elites.insert(0, ga_data.population[-num_elites - 1 - z_counter])
                 loop_counter += 1
-- 
2.43.0


From 3686c8015ec5ea45a98a40a4f7bcdf3a01e279c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:14 +0000
Subject: [PATCH 17/22] fix: tournament selection no longer fails on FFGA
 generations smaller than the tournament

---
 baumeva/ga/selections/tournament_selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/tournament_selection.py b/baumeva/ga/selections/tournament_selection.py
index d0a66cf..c6a48cb 100644
--- a/baumeva/ga/selections/tournament_selection.py
+++ b/baumeva/ga/selections/tournament_selection.py
@@ -64,11 +64,13 @@ class TournamentSelection(BaseSelection):
         :return: None
         """
         idx_total = list(range(len(ga_data.population)))
+        # FFGA generations may be smaller than num_individ, a pair still needs two different winners
+        tournament_size = min(self.tournament_size, len(idx_total) - 1)
         total_num_parents = self.get_total_num_parents(ga_data)
         for i in range(total_num_parents):
             parents_pair = []
             while len(parents_pair) < 2:
-                tournament = sample(idx_total, self.tournament_size)
+                tournament = sample(idx_total, tournament_size)
                 best = self.get_best(tournament, ga_data)
                 if len(parents_pair) == 0 or best['idx_individ'] != parents_pair[0]['idx_individ']:
                     parents_pair.append(best)
-- 
2.43.0


From 56276bd8bb57237040e41052ea052c4ca11af260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:33 +0000
Subject: [PATCH 18/22] fix: ranked selection no longer overwrites the Pareto
 rank, so FFGA keeps its non-dominated individuals

---
 baumeva/ga/selections/ranked_selection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index 1acb1e6..17170c4 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -8,7 +8,8 @@ class RankedSelection(BalancedSelection):
     Inherits from BalancedSelection.
     """
 
-    score_type = 'rank'
+    # not 'rank': in multiobjective optimization that is the Pareto rank, which the new generation still needs
+    score_type = 'selection_rank'
 
     def __init__(self):
         """
@@ -29,15 +30,15 @@ class RankedSelection(BalancedSelection):
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
-            ga_data.population[idx]['rank'] = rank
+            ga_data.population[idx][self.score_type] = rank
             if ga_data.population[idx]['score'] == prev_score:
                 count += 1
                 if rank == len(ga_data.population):
                     for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'] = (sum(range(rank - count, rank)) + count) / count
+                        ga_data.population[_idx][self.score_type] = (sum(range(rank - count, rank)) + count) / count
             elif count > 1:
                 for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'] = (sum(range(idx - count, idx)) + count) / count
+                    ga_data.population[_idx][self.score_type] = (sum(range(idx - count, idx)) + count) / count
                 count = 1
             prev_score = ga_data.population[idx]['score']
         super().add_probabilities(ga_data)
@@ -50,3 +51,5 @@ class RankedSelection(BalancedSelection):
         :return: None
         """
         super().execute(ga_data)
+        for individ in ga_data.population:
+            del individ[self.score_type]
-- 
2.43.0


From 1342e378c9f0a0f95a86b747347d0d56350bafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:09 +0000
Subject: [PATCH 19/22] fix: ranked selection ranks by score whatever the order
 of the population (it was inverted in FFGA)

---
 baumeva/ga/selections/ranked_selection.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index 17170c4..c375e60 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -26,21 +26,23 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        # FFGA populations are sorted by Pareto rank, not by score
+        ordered = sorted(ga_data.population, key=lambda ind: ind['score'])
         prev_score = None
         count = 1
-        for idx in range(len(ga_data.population)):
+        for idx in range(len(ordered)):
             rank = idx + 1
-            ga_data.population[idx][self.score_type] = rank
-            if ga_data.population[idx]['score'] == prev_score:
+            ordered[idx][self.score_type] = rank
+            if ordered[idx]['score'] == prev_score:
                 count += 1
-                if rank == len(ga_data.population):
+                if rank == len(ordered):
                     for _idx in range(rank - count, rank):
-                        ga_data.population[_idx][self.score_type] = (sum(range(rank - count, rank)) + count) / count
+                        ordered[_idx][self.score_type] = (sum(range(rank - count, rank)) + count) / count
             elif count > 1:
                 for _idx in range(idx - count, idx):
-                    ga_data.population[_idx][self.score_type] = (sum(range(idx - count, idx)) + count) / count
+                    ordered[_idx][self.score_type] = (sum(range(idx - count, idx)) + count) / count
                 count = 1
-            prev_score = ga_data.population[idx]['score']
+            prev_score = ordered[idx]['score']
         super().add_probabilities(ga_data)
 
     def execute(self, ga_data: GaData) -> None:
@@ -52,4 +54,4 @@ class RankedSelection(BalancedSelection):
         """
         super().execute(ga_data)
         for individ in ga_data.population:
-            del individ[self.score_type]
+            individ.pop(self.score_type, None)
-- 
2.43.0


From 03e031f9b0f38e231f57f71dff747f359b787b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:02 +0000
Subject: [PATCH 20/22] fix: reject NaN as a mutation level

---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index 449a663..544d135 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -35,7 +35,7 @@ class BaseCombinatoryMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index d51ffd1..ff5293e 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -29,7 +29,7 @@ class BinStringMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 464caf2..fc5add5 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -28,7 +28,7 @@ class CategoricalMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
-- 
2.43.0


From 6c2087998c59546cfc79f531cc00fe121e656b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:02 +0000
Subject: [PATCH 21/22] fix: named mutation levels follow the genotype length
 when a mutation is used for another population

---
 baumeva/ga/mutations/bin_string_mutation.py  | 7 ++++---
 baumeva/ga/mutations/categorical_mutation.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index ff5293e..1d1e095 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -14,6 +14,7 @@ class BinStringMutation(BaseMutation):
         :return: None
         """
         super().__init__(mutation_lvl=mutation_lvl)
+        self.named_lvl = mutation_lvl
         self.check_mutation()
 
     def check_mutation(self) -> None:
@@ -42,10 +43,10 @@ class BinStringMutation(BaseMutation):
         :param len_bin_str: length of binary string;
         :return: None.
         """
-        if type(self.mutation_lvl) is str:
-            if self.mutation_lvl == 'weak':
+        if type(self.named_lvl) is str:
+            if self.named_lvl == 'weak':
                 self.mutation_lvl = 0.3 / len_bin_str
-            elif self.mutation_lvl == 'normal':
+            elif self.named_lvl == 'normal':
                 self.mutation_lvl = 1 / len_bin_str
             else:
                 self.mutation_lvl = 3 / len_bin_str
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index fc5add5..d848e50 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -13,6 +13,7 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         super().__init__(mutation_lvl=mutation_lvl)
+        self.named_lvl = mutation_lvl
         self.check_mutation()
 
     def check_mutation(self) -> None:
@@ -42,10 +43,10 @@ class CategoricalMutation(BaseMutation):
         :param len_bin_str: length of binary string;
         :return: None.
         """
-        if type(self.mutation_lvl) is str:
-            if self.mutation_lvl == 'weak':
+        if type(self.named_lvl) is str:
+            if self.named_lvl == 'weak':
                 self.mutation_lvl = 0.3 / len_bin_str
-            elif self.mutation_lvl == 'normal':
+            elif self.named_lvl == 'normal':
                 self.mutation_lvl = 1 / len_bin_str
             else:
                 self.mutation_lvl = 3 / len_bin_str
-- 
2.43.0


From fb10739ccc884baf694790f24870c6c47ec88793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:10 +0000
Subject: [PATCH 22/22] fix: keep genotypes and decoded values in place when
 the objective function raises

---
 baumeva/ga/fitness/base_fitness.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index 2fdebab..c622ea0 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -157,11 +157,11 @@ class BaseFitness(ABC):
         """
         if ga_data.population.is_phenotype:
             ga_data.population.get_phenotype()
-            ga_data.population.swap()
+        key_gens = 'phenotype' if ga_data.population.is_phenotype else 'genotype'
 
         for individ in ga_data.population:
             if individ['score'] is None:
-                values = self.calc_obj_func(genotype=individ['genotype'])
+                values = self.calc_obj_func(genotype=individ[key_gens])
                 if self.__is_conditional_opt:
                     self.set_obj_score(values, individ)
                     for i_v, v in enumerate(values):
@@ -180,6 +180,3 @@ class BaseFitness(ABC):
                     individ['obj_score'] = values
                     penalty_value = 0
                 individ['score'] = self.get_fitness_score(individ, penalty_value)
-
-        if ga_data.population.is_phenotype:
-            ga_data.population.swap()
-- 
2.43.0

