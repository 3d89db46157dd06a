From 39caf466e9628e80e97e296727ad53171fffd904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:12 +0000
Subject: [PATCH 01/59] fix: reallocate the prediction array when loading a
 system

xcsf_load() replaced y_dim and n_actions but kept the arrays sized for the
previous dimensions, so using the loaded system overflowed the heap.
---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 7873924..888c5dd 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -136,7 +136,9 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         fclose(fp);
         exit(EXIT_FAILURE);
     }
+    pa_free(xcsf);
     s += param_load(xcsf, fp);
+    pa_init(xcsf); // dimensions may differ from those previously allocated
     s += clset_pset_load(xcsf, fp);
     fclose(fp);
     return s;
-- 
2.43.0


From 9d219c77d3c9f1e65de936d3ea55f1d026a049fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:12 +0000
Subject: [PATCH 02/59] fix: allocate GP constants when loading tree arguments

The buffer kept the size it had before the load, or none at all.
---
 xcsf/gp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index e558a49..b236b31 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -527,6 +527,13 @@ tree_args_load(struct ArgsGPTree *args, FILE *fp)
     s += fread(&args->n_constants, sizeof(int), 1, fp);
     s += fread(&args->init_depth, sizeof(int), 1, fp);
     s += fread(&args->max_len, sizeof(int), 1, fp);
+    if (args->n_constants < 1) {
+        printf("tree_args_load(): read error\n");
+        args->n_constants = 1;
+        exit(EXIT_FAILURE);
+    }
+    free(args->constants);
+    args->constants = malloc(sizeof(double) * args->n_constants);
     s += fread(args->constants, sizeof(double), args->n_constants, fp);
     return s;
 }
-- 
2.43.0


From 26ba540fa9cf3596bf146cd07142dad6571f9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:12 +0000
Subject: [PATCH 03/59] fix: restore output and delta pointers of a loaded
 recurrent layer

---
 xcsf/neural_layer_recurrent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index abcf415..c2940ce 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -538,5 +538,9 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->input_layer, fp);
     s += layer_load(l->self_layer, fp);
     s += layer_load(l->output_layer, fp);
+    l->output = l->output_layer->output;
+    l->delta = l->output_layer->delta;
+    set_layer_n_weights(l);
+    set_layer_n_biases(l);
     return s;
 }
-- 
2.43.0


From b6414b8c26124d8b471dd4a15324b8953304990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:48 +0000
Subject: [PATCH 04/59] fix: save and load the activation functions of LSTM
 layers

A loaded LSTM always used the default functions and so predicted something else.
---
 xcsf/neural_layer_lstm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index 86f32c1..ef35e33 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -674,6 +674,8 @@ neural_layer_lstm_save(const struct Layer *l, FILE *fp)
     s += fwrite(&l->decay, sizeof(double), 1, fp);
     s += fwrite(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fwrite(&l->options, sizeof(uint32_t), 1, fp);
+    s += fwrite(&l->function, sizeof(int), 1, fp);
+    s += fwrite(&l->recurrent_function, sizeof(int), 1, fp);
     s += fwrite(l->mu, sizeof(double), N_MU, fp);
     s += fwrite(l->state, sizeof(double), l->n_outputs, fp);
     s += fwrite(l->prev_state, sizeof(double), l->n_outputs, fp);
@@ -721,6 +723,8 @@ neural_layer_lstm_load(struct Layer *l, FILE *fp)
     s += fread(&l->decay, sizeof(double), 1, fp);
     s += fread(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fread(&l->options, sizeof(uint32_t), 1, fp);
+    s += fread(&l->function, sizeof(int), 1, fp);
+    s += fread(&l->recurrent_function, sizeof(int), 1, fp);
     l->out_w = l->n_outputs;
     l->out_c = 1;
     l->out_h = 1;
-- 
2.43.0


From 5cd2c1c39a3d643d4b88c1763368ea20569339ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:48 +0000
Subject: [PATCH 05/59] fix: keep the evolved learning rate of recurrent layers
 within its bounds

The recurrent layer itself has no eta_min and eta_max (both are zero), so the
first mutation set the rate to zero. Use the limits of its input layer.
---
 xcsf/neural_layer_recurrent.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index c2940ce..1f65157 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -133,8 +133,9 @@ set_layer_n_biases(struct Layer *l)
 static bool
 mutate_eta(struct Layer *l)
 {
-    if ((l->options & LAYER_EVOLVE_ETA) && layer_mutate_eta(l, l->mu[0])) {
-        l->input_layer->eta = l->eta;
+    if ((l->options & LAYER_EVOLVE_ETA) &&
+        layer_mutate_eta(l->input_layer, l->mu[0])) {
+        l->eta = l->input_layer->eta;
         l->self_layer->eta = l->eta;
         l->output_layer->eta = l->eta;
         return true;
-- 
2.43.0


From b405342779a29b58a1d236790d620120d6f1210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:48 +0000
Subject: [PATCH 06/59] fix: discard the stored population when loading a
 system

Its rules have the dimensions and types of the replaced parameters.
---
 xcsf/xcsf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 888c5dd..bf1999d 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -117,6 +117,7 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         clset_kill(xcsf, &xcsf->pset);
         clset_init(&xcsf->pset);
     }
+    clset_kill(xcsf, &xcsf->prev_pset); // may not fit the loaded parameters
     FILE *fp = fopen(filename, "rb");
     if (fp == 0) {
         printf("Error loading file: %s. %s.\n", filename, strerror(errno));
-- 
2.43.0


From a67ad32c744b0118060901f188652d3c17848645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:31 +0000
Subject: [PATCH 07/59] fix: cover DGP rules until they match and advocate the
 action

The loop ended as soon as either held, so covering could add rules that do not
match the input or advocate another action.
---
 xcsf/rule_dgp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index e7b77d1..a350d49 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -221,7 +221,7 @@ rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
     struct RuleDGP *cond = c->cond;
     do {
         graph_rand(&cond->dgp);
-    } while (!rule_dgp_cond_match(xcsf, c, x) &&
+    } while (!rule_dgp_cond_match(xcsf, c, x) ||
              rule_dgp_act_compute(xcsf, c, x) != action);
 }
 
-- 
2.43.0


From 2427e357fea63c237fc18d9b40ef1d4e15e3670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:31 +0000
Subject: [PATCH 08/59] fix: refuse imported DGP connections one past the last
 node

---
 xcsf/dgp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 27190e6..9065322 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -458,7 +458,7 @@ graph_json_import_connectivity(struct Graph *dgp, const cJSON *json)
         const int max_c = dgp->n + dgp->n_inputs;
         for (int i = 0; i < dgp->klen; ++i) {
             const cJSON *item_i = cJSON_GetArrayItem(item, i);
-            if (item_i->valueint < 0 || item_i->valueint > max_c) {
+            if (item_i->valueint < 0 || item_i->valueint >= max_c) {
                 printf("Import error: connectivity value out of bounds\n");
                 exit(EXIT_FAILURE);
             }
-- 
2.43.0


From dda70d1b5a24e0a41cb49e6a330b2d9e42ad71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:31 +0000
Subject: [PATCH 09/59] fix: initialise cycles and mutation rates of an
 imported DGP graph

They were left uninitialised when the JSON did not contain them.
---
 xcsf/dgp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 9065322..a3e1b5e 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -487,6 +487,7 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
         dgp->n = n->valueint;
     }
     dgp->n_inputs = args->n_inputs;
+    dgp->t = args->max_t;
     dgp->max_t = args->max_t;
     dgp->max_k = args->max_k;
     dgp->evolve_cycles = args->evolve_cycles;
@@ -498,6 +499,7 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
     dgp->function = malloc(sizeof(int) * dgp->n);
     dgp->connectivity = malloc(sizeof(int) * dgp->klen);
     dgp->mu = malloc(sizeof(double) * N_MU);
+    sam_init(dgp->mu, N_MU, MU_TYPE);
     graph_rand(dgp);
     const cJSON *t = cJSON_GetObjectItem(json, "t");
     if (t != NULL) {
-- 
2.43.0


From d8f2efd98ec608e5b02cb59ff1c8df96e9764e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:54 +0000
Subject: [PATCH 10/59] fix: cover neural rules until they match and advocate
 the action

---
 xcsf/rule_neural.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index 9618332..633177a 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -230,7 +230,7 @@ rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
     const struct RuleNeural *cond = c->cond;
     do {
         neural_rand(&cond->net);
-    } while (!rule_neural_cond_match(xcsf, c, x) &&
+    } while (!rule_neural_cond_match(xcsf, c, x) ||
              rule_neural_act_compute(xcsf, c, x) != action);
 }
 
-- 
2.43.0


From 5065fb9acb09db9c8a1ce14bfa4ead575bac7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:54 +0000
Subject: [PATCH 11/59] fix: do not report a DGP graph as mutated when its
 cycles are unchanged

Unchanged offspring were inserted as new rules instead of being counted as
copies of their parent.
---
 xcsf/dgp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index a3e1b5e..3813fd3 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -111,7 +111,7 @@ static bool
 graph_mutate_cycles(struct Graph *dgp)
 {
     const int n = (int) round((2 * dgp->mu[2]) - 1);
-    if (dgp->t + n < 1 || dgp->t + n > dgp->max_t) {
+    if (n == 0 || dgp->t + n < 1 || dgp->t + n > dgp->max_t) {
         return false;
     }
     dgp->t += n;
-- 
2.43.0


From 46737ac2a7e8e820001c6c7f01f803b84bba0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:54 +0000
Subject: [PATCH 12/59] fix: size the copy of a DGP graph by its source

An imported graph may have more nodes than the configured number; copying it
overflowed the destination.
---
 xcsf/dgp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 3813fd3..f5a2a6b 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -257,6 +257,13 @@ graph_copy(struct Graph *dest, const struct Graph *src)
     dest->max_t = src->max_t;
     dest->n_inputs = src->n_inputs;
     dest->evolve_cycles = src->evolve_cycles;
+    // an imported graph may have another number of nodes than the arguments
+    dest->state = realloc(dest->state, sizeof(double) * src->n);
+    dest->initial_state = realloc(dest->initial_state, sizeof(double) * src->n);
+    dest->tmp_state = realloc(dest->tmp_state, sizeof(double) * src->n);
+    dest->tmp_input = realloc(dest->tmp_input, sizeof(double) * src->max_k);
+    dest->function = realloc(dest->function, sizeof(int) * src->n);
+    dest->connectivity = realloc(dest->connectivity, sizeof(int) * src->klen);
     memcpy(dest->state, src->state, sizeof(double) * src->n);
     memcpy(dest->initial_state, src->initial_state, sizeof(double) * src->n);
     memcpy(dest->function, src->function, sizeof(int) * src->n);
-- 
2.43.0


From b7cea0555e68d8e5d0cc17e780ae4ceb5bbc54f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:54 +0000
Subject: [PATCH 13/59] fix: integer overflow in the total time of a set

---
 xcsf/clset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index fb03cf0..6bca11c 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -271,7 +271,7 @@ clset_total_time(const struct Set *set)
     double sum = 0;
     const struct Clist *iter = set->list;
     while (iter != NULL) {
-        sum += iter->cl->time * iter->cl->num;
+        sum += (double) iter->cl->time * iter->cl->num;
         iter = iter->next;
     }
     return sum;
-- 
2.43.0


From 1acf55d0f4dd4ab02d04fe0e325ccbed2d41b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:25 +0000
Subject: [PATCH 14/59] fix: null pointer dereference when inserting an empty
 list of classifiers

---
 xcsf/clset.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 6bca11c..132c4e9 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -799,9 +799,11 @@ clset_json_insert(struct XCSF *xcsf, const char *json_str)
     utils_json_parse_check(json);
     if (json->child != NULL && cJSON_IsArray(json->child)) {
         cJSON *tail = json->child->child; // insert inverted for consistency
-        tail->prev = NULL; // this should have been set by cJSON!
-        while (tail->next != NULL) {
-            tail = tail->next;
+        if (tail != NULL) {
+            tail->prev = NULL; // this should have been set by cJSON!
+            while (tail->next != NULL) {
+                tail = tail->next;
+            }
         }
         while (tail != NULL) {
             clset_json_insert_cl(xcsf, tail);
-- 
2.43.0


From dceb89aeb3ad019a134a60f60ee48f393ccb04de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:25 +0000
Subject: [PATCH 15/59] fix: initialise the position of a random GP tree

It is written to file when saving.
---
 xcsf/gp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index b236b31..5b80d25 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -102,6 +102,7 @@ void
 tree_rand(struct GPTree *gp, const struct ArgsGPTree *args)
 {
     gp->tree = malloc(sizeof(int) * args->max_len);
+    gp->pos = 0;
     gp->len = 0;
     while (gp->len < 1) {
         gp->len = tree_grow(args, gp->tree, 0, args->max_len, args->init_depth);
-- 
2.43.0


From cfd069366cda532fe065e92db9f504d0969b405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:25 +0000
Subject: [PATCH 16/59] fix: apply the activation gradient in convolutional
 layers without SGD

As in connected layers: the error passed back to earlier layers must include it
even if the weights of this layer are not updated.
---
 xcsf/neural_layer_convolutional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 0161341..5bd5006 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -301,8 +301,8 @@ neural_layer_convolutional_backward(const struct Layer *l,
     const int m = l->n_filters;
     const int n = l->size * l->size * l->channels;
     const int k = l->out_w * l->out_h;
+    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
     if (l->options & LAYER_SGD_WEIGHTS) {
-        neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
         for (int i = 0; i < l->n_biases; ++i) {
             l->bias_updates[i] += blas_sum(l->delta + k * i, k);
         }
-- 
2.43.0


From 24de176c2df66c9f23ddbfa55d5d15bd86dfb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:25 +0000
Subject: [PATCH 17/59] fix: memory leak in neural_print()

---
 xcsf/neural.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index d345b6e..fd96068 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -394,7 +394,9 @@ neural_outputs(const struct Net *net)
 void
 neural_print(const struct Net *net, const bool print_weights)
 {
-    printf("%s\n", neural_json_export(net, print_weights));
+    char *json_str = neural_json_export(net, print_weights);
+    printf("%s\n", json_str);
+    free(json_str);
 }
 
 /**
-- 
2.43.0


From 919ec5f59286eec07f6403983f561223477949ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:16:15 +0000
Subject: [PATCH 18/59] fix: discard a left-over Gaussian when a system is
 initialised

rand_normal() kept its second Box-Muller value across re-seeding, so two
systems created with the same seed in one process could differ.
---
 xcsf/utils.c | 16 +++++++++++++---
 xcsf/utils.h |  3 +++
 xcsf/xcsf.c  |  2 ++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/xcsf/utils.c b/xcsf/utils.c
index 0293403..2642972 100644
--- a/xcsf/utils.c
+++ b/xcsf/utils.c
@@ -27,6 +27,8 @@
 #include <stdbool.h>
 #include <time.h>
 
+static bool normal_spare; //!< Whether rand_normal() holds an unused value
+
 /**
  * @brief Initialises the pseudo-random number generator.
  */
@@ -52,6 +54,15 @@ rand_init_seed(const uint32_t seed)
     dsfmt_gv_init_gen_rand(seed);
 }
 
+/**
+ * @brief Discards a Gaussian left over from a previous use of rand_normal().
+ */
+void
+rand_normal_reset(void)
+{
+    normal_spare = false;
+}
+
 /**
  * @brief Returns a uniform random float [min,max].
  * @param [in] min Minimum value.
@@ -88,9 +99,8 @@ rand_normal(const double mu, const double sigma)
 {
     static const double two_pi = 2 * M_PI;
     static double z1;
-    static bool generate;
-    generate = !generate;
-    if (!generate) {
+    normal_spare = !normal_spare;
+    if (!normal_spare) {
         return z1 * sigma + mu;
     }
     const double u1 = dsfmt_gv_genrand_open_open();
diff --git a/xcsf/utils.h b/xcsf/utils.h
index 2df6236..b679fa7 100644
--- a/xcsf/utils.h
+++ b/xcsf/utils.h
@@ -34,6 +34,9 @@
 double
 rand_normal(const double mu, const double sigma);
 
+void
+rand_normal_reset(void);
+
 double
 rand_uniform(const double min, const double max);
 
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index bf1999d..bf995bf 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -28,6 +28,7 @@
 #include "pa.h"
 #include "param.h"
 #include "pred_neural.h"
+#include "utils.h"
 
 /**
  * @brief Initialises XCSF with an empty population.
@@ -36,6 +37,7 @@
 void
 xcsf_init(struct XCSF *xcsf)
 {
+    rand_normal_reset();
     xcsf->time = 0;
     xcsf->error = xcsf->E0;
     xcsf->mset_size = 0;
-- 
2.43.0


From 98ee8ca23f446a0f59a68634f0c172879d0c7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 19/59] fix: read numpy arrays of any memory layout

Transposed, sliced and other non-contiguous arrays were read as though they
were contiguous in row-major order.
---
 xcsf/pybind_wrapper.cpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index d90636a..78c7d88 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -58,6 +58,11 @@ extern "C" {
 #include "pybind_callback_earlystop.h"
 #include "pybind_utils.h"
 
+/**
+ * @brief Numpy array of doubles, converted to row-major layout if necessary.
+ */
+typedef py::array_t<double, py::array::c_style | py::array::forcecast> Array;
+
 /**
  * @brief Python XCSF class data structure.
  */
@@ -222,7 +227,7 @@ class XCS
      * @return The prediction error.
      */
     double
-    fit(const py::array_t<double> input, const int action, const double reward)
+    fit(const Array input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -284,7 +289,7 @@ class XCS
      * @return The selected action.
      */
     int
-    decision(const py::array_t<double> input, const bool explore)
+    decision(const Array input, const bool explore)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -334,8 +339,7 @@ class XCS
      * @param [in] Y Vector of truth values with shape (n_samples, y_dim).
      */
     void
-    load_input(struct Input *data, const py::array_t<double> X,
-               const py::array_t<double> Y)
+    load_input(struct Input *data, const Array X, const Array Y)
     {
         // access input
         const py::buffer_info buf_x = X.request();
@@ -433,8 +437,8 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                py::array_t<double> X_val = data[0].cast<py::array_t<double>>();
-                py::array_t<double> y_val = data[1].cast<py::array_t<double>>();
+                Array X_val = data[0].cast<Array>();
+                Array y_val = data[1].cast<Array>();
                 load_input(test_data, X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
@@ -496,9 +500,9 @@ class XCS
      * @return The fitted XCSF model.
      */
     XCS &
-    fit(const py::array_t<double> X_train, const py::array_t<double> y_train,
-        const bool shuffle, const bool warm_start, const bool verbose,
-        py::object callbacks, py::kwargs kwargs)
+    fit(const Array X_train, const Array y_train, const bool shuffle,
+        const bool warm_start, const bool verbose, py::object callbacks,
+        py::kwargs kwargs)
     {
         if (!warm_start) { // re-initialise XCSF as necessary
             xcsf_free(&xcs);
@@ -540,7 +544,7 @@ class XCS
      * @return The cover array values.
      */
     double *
-    get_cover(const py::array_t<double> cover)
+    get_cover(const Array cover)
     {
         const py::buffer_info buf_c = cover.request();
         if (buf_c.ndim != 1) {
@@ -568,7 +572,7 @@ class XCS
         if (cover.is_none()) {
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
-            py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
+            Array cover_arr = cover.cast<Array>();
             xcs.cover = get_cover(cover_arr);
         }
     }
@@ -581,7 +585,7 @@ class XCS
      * @return The prediction array values.
      */
     py::array_t<double>
-    predict(const py::array_t<double> X, const py::object &cover)
+    predict(const Array X, const py::object &cover)
     {
         const py::buffer_info buf_x = X.request();
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
@@ -615,7 +619,7 @@ class XCS
      * @return The average XCSF error using the loss function.
      */
     double
-    score(const py::array_t<double> X, const py::array_t<double> Y, const int N,
+    score(const Array X, const Array Y, const int N,
           const py::object &cover)
     {
         set_cover(cover);
@@ -943,11 +947,9 @@ PYBIND11_MODULE(xcsf, m)
               "machine learning.\nFor details on how to use this module see: "
               "https://github.com/xcsf-dev/xcsf/wiki/Python-Library-Usage";
 
-    double (XCS::*fit1)(const py::array_t<double>, const int, const double) =
-        &XCS::fit;
-    XCS &(XCS::*fit2)(const py::array_t<double>, const py::array_t<double>,
-                      const bool, const bool, const bool, py::object,
-                      py::kwargs) = &XCS::fit;
+    double (XCS::*fit1)(const Array, const int, const double) = &XCS::fit;
+    XCS &(XCS::*fit2)(const Array, const Array, const bool, const bool,
+                      const bool, py::object, py::kwargs) = &XCS::fit;
 
     double (XCS::*error1)(void) = &XCS::error;
     double (XCS::*error2)(const double, const bool, const double) = &XCS::error;
-- 
2.43.0


From 2fedf4669ae0da6506076e394a08f456bbbaab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 20/59] fix: keep converted validation data alive while fitting

validation_data that needed conversion was freed before it was used.
---
 xcsf/pybind_wrapper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 78c7d88..2abc9ec 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -76,6 +76,8 @@ class XCS
     struct Input *train_data; //!< Training data for supervised learning
     struct Input *test_data; //!< Test data for supervised learning
     struct Input *val_data; //!< Validation data
+    Array X_val; //!< Keeps the validation inputs alive during fitting
+    Array y_val; //!< Keeps the validation outputs alive during fitting
     py::dict params; //!< Dictionary of parameters and their values
     py::list metric_train;
     py::list metric_val;
@@ -437,8 +439,8 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                Array X_val = data[0].cast<Array>();
-                Array y_val = data[1].cast<Array>();
+                X_val = data[0].cast<Array>();
+                y_val = data[1].cast<Array>();
                 load_input(test_data, X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
-- 
2.43.0


From e10b92228eedff7daf90f6eb6c94097696392262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 21/59] fix: copy the values of a cover array

The system kept a pointer to the caller's array: its own buffer leaked, the
array was read after being freed, and xcsf_free() freed memory of numpy.
---
 xcsf/pybind_wrapper.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 2abc9ec..c9c41d4 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -545,8 +545,8 @@ class XCS
      * @param [in] cover The values to return for covering.
      * @return The cover array values.
      */
-    double *
-    get_cover(const Array cover)
+    const double *
+    get_cover(const Array &cover)
     {
         const py::buffer_info buf_c = cover.request();
         if (buf_c.ndim != 1) {
@@ -561,7 +561,7 @@ class XCS
                 << xcs.y_dim << std::endl;
             throw std::invalid_argument(err.str());
         }
-        return reinterpret_cast<double *>(buf_c.ptr);
+        return reinterpret_cast<const double *>(buf_c.ptr);
     }
 
     /**
@@ -575,7 +575,10 @@ class XCS
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
             Array cover_arr = cover.cast<Array>();
-            xcs.cover = get_cover(cover_arr);
+            const double *values = get_cover(cover_arr);
+            for (int i = 0; i < xcs.pa_size; ++i) {
+                xcs.cover[i] = values[i % xcs.y_dim];
+            }
         }
     }
 
-- 
2.43.0


From 5050a14d0260ce7b517e9b81e49b62fc1749afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 22/59] fix: refuse arrays whose number of dimensions does not
 fit

1-D data was read out of bounds by systems with more than one input or output,
and so was a state that is not 1-D.
---
 xcsf/pybind_wrapper.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index c9c41d4..ce7b666 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -232,7 +232,7 @@ class XCS
     fit(const Array input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim != 1 || buf.shape[0] != xcs.x_dim) {
             std::ostringstream error;
             error << "fit(): x_dim is not equal to: " << xcs.x_dim << std::endl;
             throw std::invalid_argument(error.str());
@@ -294,7 +294,7 @@ class XCS
     decision(const Array input, const bool explore)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim != 1 || buf.shape[0] != xcs.x_dim) {
             std::ostringstream error;
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
@@ -356,18 +356,20 @@ class XCS
         if (buf_x.shape[0] != buf_y.shape[0]) {
             throw std::invalid_argument("X and Y n_samples are not equal");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        const int x_dim = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
+        if (x_dim != xcs.x_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << x_dim << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
         }
-        if (buf_y.ndim > 1 && buf_y.shape[1] != xcs.y_dim) {
+        const int y_dim = buf_y.ndim > 1 ? buf_y.shape[1] : 1;
+        if (y_dim != xcs.y_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received y_dim: (" << buf_y.shape[1] << ")";
+            error << " received y_dim: (" << y_dim << ")";
             error << " but expected (" << xcs.y_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
@@ -596,10 +598,11 @@ class XCS
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
             throw std::invalid_argument("predict(): X must be 1 or 2-D array");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        const int x_dim = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
+        if (x_dim != xcs.x_dim) {
             std::ostringstream error;
             error << "predict():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << x_dim << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
-- 
2.43.0


From a2000af2325d5bf27278c774f7c03407cb165f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 23/59] fix: copy the state given to decision()

update() and end_step() read the caller's array after it may have been freed
or changed.
---
 xcsf/pybind_wrapper.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index ce7b666..28e3a22 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -70,7 +70,7 @@ class XCS
 {
   private:
     struct XCSF xcs; //!< XCSF data structure
-    double *state; //!< Current input state for RL
+    std::vector<double> state; //!< Current input state for RL
     int action; //!< Current action for RL
     double payoff; //!< Current reward for RL
     struct Input *train_data; //!< Training data for supervised learning
@@ -114,7 +114,6 @@ class XCS
     void
     reset(void)
     {
-        state = NULL;
         action = 0;
         payoff = 0;
         train_data = new struct Input;
@@ -243,8 +242,9 @@ class XCS
                   << std::endl;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
-        return xcs_rl_fit(&xcs, state, action, reward);
+        const double *x = (double *) buf.ptr;
+        state.assign(x, x + xcs.x_dim);
+        return xcs_rl_fit(&xcs, state.data(), action, reward);
     }
 
     /**
@@ -280,7 +280,7 @@ class XCS
     void
     end_step(void)
     {
-        xcs_rl_end_step(&xcs, state, action, payoff);
+        xcs_rl_end_step(&xcs, state.data(), action, payoff);
     }
 
     /**
@@ -299,9 +299,10 @@ class XCS
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
+        const double *x = (double *) buf.ptr;
+        state.assign(x, x + xcs.x_dim);
         param_set_explore(&xcs, explore);
-        action = xcs_rl_decision(&xcs, state);
+        action = xcs_rl_decision(&xcs, state.data());
         return action;
     }
 
@@ -315,7 +316,7 @@ class XCS
     update(const double reward, const bool done)
     {
         payoff = reward;
-        xcs_rl_update(&xcs, state, action, payoff, done);
+        xcs_rl_update(&xcs, state.data(), action, payoff, done);
     }
 
     /**
-- 
2.43.0


From be0460b493228b1873e6179ebb6d5a743ad2d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:06 +0000
Subject: [PATCH 24/59] fix: execute exactly max_trials learning trials

When max_trials was not a multiple of perf_trials, fit() ran the last epoch in
full and reported more trials than asked for.
---
 xcsf/pybind_wrapper.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 28e3a22..e6cb1f5 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -85,7 +85,6 @@ class XCS
     py::list metric_psize;
     py::list metric_msize;
     py::list metric_mfrac;
-    int metric_counter;
 
   public:
     /**
@@ -129,7 +128,6 @@ class XCS
         test_data->x = NULL;
         test_data->y = NULL;
         val_data = NULL;
-        metric_counter = 0;
         param_init(&xcs, 1, 1, 1);
         update_params();
     }
@@ -417,14 +415,16 @@ class XCS
     void
     update_metrics(const double train, const double val, const int n_trials)
     {
-        const int trial = (1 + metric_counter) * n_trials;
+        int trial = n_trials;
+        if (metric_trial.size() > 0) {
+            trial += py::cast<int>(metric_trial[metric_trial.size() - 1]);
+        }
         metric_train.append(train);
         metric_val.append(val);
         metric_trial.append(trial);
         metric_psize.append(xcs.pset.size);
         metric_msize.append(xcs.mset_size);
         metric_mfrac.append(xcs.mfrac);
-        ++metric_counter;
     }
 
     /**
@@ -522,9 +522,10 @@ class XCS
         }
         // break up the learning into epochs to track metrics
         const int n = ceil(xcs.MAX_TRIALS / (double) xcs.PERF_TRIALS);
-        const int n_trials = std::min(xcs.MAX_TRIALS, xcs.PERF_TRIALS);
         for (int i = 0; i < n; ++i) {
-            const int start = i * n_trials;
+            const int start = i * xcs.PERF_TRIALS;
+            const int n_trials =
+                std::min(xcs.MAX_TRIALS - start, xcs.PERF_TRIALS);
             const double train_error = xcs_supervised_fit(
                 &xcs, train_data, NULL, shuffle, start, n_trials);
             double val_error = 0;
-- 
2.43.0


From 33a7b3a5cafd2c7002e70f6f48c3d55c5e4476bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:06 +0000
Subject: [PATCH 25/59] fix: memory leak in predict()

---
 xcsf/pybind_wrapper.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index e6cb1f5..43573fc 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -611,12 +611,12 @@ class XCS
         }
         const int n_samples = buf_x.shape[0];
         const double *input = reinterpret_cast<double *>(buf_x.ptr);
-        double *output =
-            (double *) malloc(sizeof(double) * n_samples * xcs.pa_size);
+        py::array_t<double> output(
+            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size });
         set_cover(cover);
-        xcs_supervised_predict(&xcs, input, output, n_samples, xcs.cover);
-        return py::array_t<double>(
-            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size }, output);
+        xcs_supervised_predict(&xcs, input, output.mutable_data(), n_samples,
+                               xcs.cover);
+        return output;
     }
 
     /**
-- 
2.43.0


From 654b48c164b77089634b98a85e39eb323339763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:06 +0000
Subject: [PATCH 26/59] fix: memory leak when exporting the population from
 Python

---
 xcsf/pybind_wrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 43573fc..b196019 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -816,12 +816,15 @@ class XCS
      * @param [in] prediction Whether to return the prediction.
      * @return String encoded in json format.
      */
-    const char *
+    std::string
     json_export(const bool condition, const bool action, const bool prediction)
     {
         if (xcs.pset.list != NULL) {
-            return clset_json_export(&xcs, &xcs.pset, condition, action,
-                                     prediction);
+            char *json_str = clset_json_export(&xcs, &xcs.pset, condition,
+                                               action, prediction);
+            const std::string result(json_str);
+            free(json_str);
+            return result;
         }
         return "null";
     }
-- 
2.43.0


From 9db63967f30a56d649759f6d076dc87a42cba4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:06 +0000
Subject: [PATCH 27/59] fix: free a system when its Python object is destroyed

---
 xcsf/pybind_wrapper.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index b196019..2525063 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -107,6 +107,21 @@ class XCS
         xcsf_init(&xcs);
     }
 
+    XCS(const XCS &) = delete;
+    XCS &
+    operator=(const XCS &) = delete;
+
+    /**
+     * @brief Destructor.
+     */
+    ~XCS()
+    {
+        xcsf_free(&xcs);
+        param_free(&xcs);
+        delete train_data;
+        delete test_data;
+    }
+
     /**
      * @brief Resets basic constructor variables.
      */
@@ -669,7 +684,7 @@ class XCS
      * @details Uses a temporary binary file.
      * @param state The pickled state of a saved XCSF.
      */
-    static XCS
+    static std::unique_ptr<XCS>
     deserialize(const py::bytes &state)
     {
         // Write the XCSF bytes to a temporary binary file
@@ -679,11 +694,11 @@ class XCS
                    state.cast<std::string>().size());
         file.close();
         // Create a new XCSF instance
-        XCS xcs = XCS();
+        std::unique_ptr<XCS> xcs(new XCS());
         // Load XCSF
-        xcsf_load(&xcs.xcs, filename);
+        xcsf_load(&xcs->xcs, filename);
         // Update object params
-        xcs.update_params();
+        xcs->update_params();
         // Delete the temporary file
         if (std::remove(filename) != 0) {
             perror("Error deleting temporary pickle file");
-- 
2.43.0


From 70c54a6c7b49c4d60ae8501762695bc87ec74b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:06 +0000
Subject: [PATCH 28/59] fix: use a unique temporary file when pickling

Processes pickling in the same directory overwrote the file of one another, and
a file of the user with that name was destroyed.
---
 xcsf/pybind_wrapper.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 2525063..19e6afd 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -655,6 +655,18 @@ class XCS
         return xcs_supervised_score(&xcs, test_data, xcs.cover);
     }
 
+    /**
+     * @brief Creates an empty temporary file.
+     * @return The name of the file.
+     */
+    static std::string
+    temp_filename()
+    {
+        py::tuple file = py::module::import("tempfile").attr("mkstemp")();
+        py::module::import("os").attr("close")(file[0]);
+        return file[1].cast<std::string>();
+    }
+
     /**
      * @brief Implements pickle file writing.
      * @details Uses a temporary binary file.
@@ -664,15 +676,15 @@ class XCS
     serialize() const
     {
         // Write XCSF to a temporary binary file
-        const char *filename = "_tmp_pickle.bin";
-        xcsf_save(&xcs, filename);
+        const std::string filename = temp_filename();
+        xcsf_save(&xcs, filename.c_str());
         // Read the binary file into bytes
         std::ifstream file(filename, std::ios::binary);
         std::string state((std::istreambuf_iterator<char>(file)),
                           std::istreambuf_iterator<char>());
         file.close();
         // Delete the temporary file
-        if (std::remove(filename) != 0) {
+        if (std::remove(filename.c_str()) != 0) {
             perror("Error deleting temporary pickle file");
         }
         // Return the binary data as bytes
@@ -688,7 +700,7 @@ class XCS
     deserialize(const py::bytes &state)
     {
         // Write the XCSF bytes to a temporary binary file
-        const char *filename = "_tmp_pickle.bin";
+        const std::string filename = temp_filename();
         std::ofstream file(filename, std::ios::binary);
         file.write(state.cast<std::string>().c_str(),
                    state.cast<std::string>().size());
@@ -696,11 +708,11 @@ class XCS
         // Create a new XCSF instance
         std::unique_ptr<XCS> xcs(new XCS());
         // Load XCSF
-        xcsf_load(&xcs->xcs, filename);
+        xcsf_load(&xcs->xcs, filename.c_str());
         // Update object params
         xcs->update_params();
         // Delete the temporary file
-        if (std::remove(filename) != 0) {
+        if (std::remove(filename.c_str()) != 0) {
             perror("Error deleting temporary pickle file");
         }
         // Return the deserialized XCSF
-- 
2.43.0


From 4616ddfc33068325d6bc9bf2258ce8b0b1e79014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 29/59] fix: convolution with a kernel of size 1 and a stride
 or padding

The input was used as though it had the dimensions of the output, reading out
of bounds with padding and the wrong values with a stride.
---
 xcsf/neural_layer_convolutional.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 5bd5006..5269cda 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -82,6 +82,17 @@ get_workspace_size(const struct Layer *l)
     return workspace_size;
 }
 
+/**
+ * @brief Returns whether the columns of a layer are identical to its input.
+ * @param [in] l A convolutional layer.
+ * @return Whether each output position has only the same input position.
+ */
+static bool
+is_pointwise(const struct Layer *l)
+{
+    return l->size == 1 && l->stride == 1 && l->pad == 0;
+}
+
 /**
  * @brief Check memory allocation is within bounds.
  * @param [in] l The layer to be allocated memory.
@@ -270,7 +281,7 @@ neural_layer_convolutional_forward(const struct Layer *l, const struct Net *net,
     double *b = l->temp;
     double *c = l->state;
     memset(l->state, 0, sizeof(double) * l->n_outputs);
-    if (l->size == 1) {
+    if (is_pointwise(l)) {
         blas_gemm(0, 0, m, n, k, 1, a, k, input, n, 1, c, n);
     } else {
         im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -309,7 +320,7 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->delta;
         double *b = l->temp;
         double *c = l->weight_updates;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             blas_gemm(0, 1, m, n, k, 1, a, k, input, k, 1, c, n);
         } else {
             im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -321,11 +332,11 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->weights;
         const double *b = l->delta;
         double *c = l->temp;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             c = delta;
         }
         blas_gemm(1, 0, n, k, m, 1, a, n, b, k, 0, c, k);
-        if (l->size != 1) {
+        if (!is_pointwise(l)) {
             col2im(l->temp, l->channels, l->height, l->width, l->size,
                    l->stride, l->pad, delta);
         }
-- 
2.43.0


From 2ff8f8fe42d3b1ade7e8a6a8685d37f916688695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 30/59] fix: state of resized and weight count of copied
 recurrent layers

The state of added neurons was uninitialised, and a copy reported no weights.
---
 xcsf/neural_layer_recurrent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 1f65157..5aef271 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -66,6 +66,8 @@ realloc_layer_arrays(struct Layer *l)
     layer_guard_outputs(l);
     l->state = realloc(l->state, l->n_outputs * sizeof(double));
     l->prev_state = realloc(l->prev_state, l->n_outputs * sizeof(double));
+    memset(l->state, 0, l->n_outputs * sizeof(double));
+    memset(l->prev_state, 0, l->n_outputs * sizeof(double));
 }
 
 /**
@@ -306,6 +308,8 @@ neural_layer_recurrent_copy(const struct Layer *src)
     l->output_layer = layer_copy(src->output_layer);
     l->output = l->output_layer->output;
     l->delta = l->output_layer->delta;
+    set_layer_n_weights(l);
+    set_layer_n_biases(l);
     malloc_layer_arrays(l);
     memcpy(l->mu, src->mu, sizeof(double) * N_MU);
     memcpy(l->prev_state, src->prev_state, sizeof(double) * src->n_outputs);
-- 
2.43.0


From ccaa44df6cc36dfbd8eb9c7330bda40c4048341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 31/59] fix: import the actions of exported rule_dgp
 classifiers

The action type of a rule was compared with the separate action type.
---
 xcsf/action.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xcsf/action.h b/xcsf/action.h
index caacbf3..920bcaf 100644
--- a/xcsf/action.h
+++ b/xcsf/action.h
@@ -23,6 +23,7 @@
 
 #pragma once
 
+#include "condition.h"
 #include "xcsf.h"
 
 #define ACT_TYPE_INVALID (-1) //!< Error code for invalid actions
@@ -275,7 +276,15 @@ act_json_import(const struct XCSF *xcsf, struct Cl *c, const cJSON *json)
         exit(EXIT_FAILURE);
     }
     const char *type = item->valuestring;
-    if (action_type_as_int(type) != xcsf->act->type) {
+    if (xcsf->cond->type == RULE_TYPE_DGP ||
+        xcsf->cond->type == RULE_TYPE_NEURAL) {
+        if (condition_type_as_int(type) != xcsf->cond->type) {
+            printf("action_json_import(): mismatched type\n");
+            printf("XCSF type = %s, but imported type = %s\n",
+                   condition_type_as_string(xcsf->cond->type), type);
+            exit(EXIT_FAILURE);
+        }
+    } else if (action_type_as_int(type) != xcsf->act->type) {
         printf("action_json_import(): mismatched type\n");
         printf("XCSF type = %s, but imported type = %s\n",
                action_type_as_string(xcsf->act->type), type);
-- 
2.43.0


From 790e34e33d4bc21e273062c2f81bab65f73dc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 32/59] fix: refuse imported actions that are out of range

Such an action was later used as an index into the prediction array.
---
 xcsf/act_integer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcsf/act_integer.c b/xcsf/act_integer.c
index 0924f58..6737f8e 100644
--- a/xcsf/act_integer.c
+++ b/xcsf/act_integer.c
@@ -270,10 +270,13 @@ void
 act_integer_json_import(const struct XCSF *xcsf, struct Cl *c,
                         const cJSON *json)
 {
-    (void) xcsf;
     struct ActInteger *act = c->act;
     const cJSON *item = cJSON_GetObjectItem(json, "action");
     if (item != NULL && cJSON_IsNumber(item)) {
+        if (item->valueint < 0 || item->valueint >= xcsf->n_actions) {
+            printf("Import error: action out of range\n");
+            exit(EXIT_FAILURE);
+        }
         act->action = item->valueint;
     }
     sam_json_import(act->mu, N_MU, json);
-- 
2.43.0


From 3bd686a8e0e0a56f8ed4f20daa8c197b61e57ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 33/59] fix: read configuration files with long lines or no
 white space

A file without white space overflowed the buffer by one, and the part of a
comment beyond 125 characters was parsed as parameters.
---
 xcsf/config.c | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/xcsf/config.c b/xcsf/config.c
index fc07365..4b9963e 100644
--- a/xcsf/config.c
+++ b/xcsf/config.c
@@ -24,23 +24,6 @@
 #include "config.h"
 #include "param.h"
 
-#define MAXLEN (127) //!< Maximum config file line length to read
-
-/**
- * @brief Removes tabs/spaces/lf/cr
- * @param [in] s The line to trim.
- */
-static void
-config_trim(char *s)
-{
-    const char *d = s;
-    do {
-        while (*d == ' ' || *d == '\t' || *d == '\n' || *d == '\r') {
-            ++d;
-        }
-    } while ((*s++ = *d++));
-}
-
 /**
  * @brief Reads the specified configuration file.
  * @param [in] xcsf The XCSF data structure.
@@ -57,23 +40,23 @@ config_read(struct XCSF *xcsf, const char *filename)
     fseek(f, 0, SEEK_END);
     const long len = ftell(f);
     fseek(f, 0, SEEK_SET);
-    char file_buff[len];
-    file_buff[0] = '\0';
-    char line_buff[MAXLEN];
-    while (!feof(f)) {
-        if (fgets(line_buff, MAXLEN - 2, f) == NULL) {
-            break;
-        }
-        config_trim(line_buff);
-        if (strnlen(line_buff, MAXLEN) == 0 || line_buff[0] == '#') {
-            continue; // ignore empty lines and lines starting with '#'
+    char *file_buff = malloc(sizeof(char) * (len + 1));
+    long n = 0;
+    bool comment = false;
+    int c = 0;
+    while (n < len && (c = fgetc(f)) != EOF) {
+        if (c == '#') {
+            comment = true; // ignore anything after # on a line
+        } else if (c == '\n') {
+            comment = false;
         }
-        char *ptr = strchr(line_buff, '#'); // remove anything after #
-        if (ptr != NULL) {
-            *ptr = '\0';
+        if (!comment && c != ' ' && c != '\t' && c != '\n' && c != '\r') {
+            file_buff[n] = (char) c;
+            ++n;
         }
-        strncat(file_buff, line_buff, MAXLEN);
     }
+    file_buff[n] = '\0';
     fclose(f);
     param_json_import(xcsf, file_buff);
+    free(file_buff);
 }
-- 
2.43.0


From faef33a5a5d303f482a45a25058bdbdeb351e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 34/59] fix: read csv files with long or blank lines

Lines of more than 199 characters were split into several samples, and a blank
or short line dereferenced a null pointer.
---
 xcsf/env_csv.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/xcsf/env_csv.c b/xcsf/env_csv.c
index 166bf42..d34655d 100644
--- a/xcsf/env_csv.c
+++ b/xcsf/env_csv.c
@@ -25,10 +25,32 @@
 #include "param.h"
 
 #define MAX_ROWS (100000) //!< Maximum number of instances
-#define MAX_COLS (200) //!< Maximum line length
+#define MAX_COLS (65536) //!< Maximum line length
 #define MAX_NAME (200) //!< Maximum file name length
 #define DELIM (",") //!< File delimiter
 
+/**
+ * @brief Reads the next line of a csv file that is not blank.
+ * @param [in] fin The csv file.
+ * @param [out] line Buffer of MAX_COLS characters for the line.
+ * @return Whether a line was read.
+ */
+static bool
+env_csv_line(FILE *fin, char *line)
+{
+    while (fgets(line, MAX_COLS, fin) != NULL) {
+        const size_t len = strnlen(line, MAX_COLS);
+        if (len == MAX_COLS - 1 && line[len - 1] != '\n') {
+            printf("Error reading csv file: line too long\n");
+            exit(EXIT_FAILURE);
+        }
+        if (line[strspn(line, " \t\r\n")] != '\0') {
+            return true;
+        }
+    }
+    return false;
+}
+
 /**
  * @brief Returns the number of samples in a csv file.
  * @param [in] fin The csv file.
@@ -39,7 +61,7 @@ env_csv_samples(FILE *fin)
 {
     int n_samples = 0;
     char line[MAX_COLS];
-    while (fgets(line, MAX_COLS, fin) != NULL) {
+    while (env_csv_line(fin, line)) {
         ++n_samples;
     }
     return n_samples;
@@ -57,7 +79,7 @@ env_csv_dim(FILE *fin)
     int n_dim = 0;
     char line[MAX_COLS];
     char *saveptr = NULL;
-    if (fgets(line, MAX_COLS, fin) != NULL) {
+    if (env_csv_line(fin, line)) {
         const char *ptok = strtok_r(line, DELIM, &saveptr);
         while (ptok != NULL) {
             if (strnlen(ptok, MAX_COLS) > 0) {
@@ -87,11 +109,16 @@ env_csv_read_data(FILE *fin, double **data, const int n_samples,
     char *saveptr = NULL;
     char *endptr = NULL;
     int i = 0;
-    while (fgets(line, MAX_COLS, fin) != NULL && i < n_samples) {
+    while (i < n_samples && env_csv_line(fin, line)) {
         str = strtok_r(line, DELIM, &saveptr);
-        (*data)[i * n_dim] = strtod(str, &endptr);
-        for (int j = 1; j < n_dim; ++j) {
-            str = strtok_r(NULL, DELIM, &saveptr);
+        for (int j = 0; j < n_dim; ++j) {
+            if (j > 0) {
+                str = strtok_r(NULL, DELIM, &saveptr);
+            }
+            if (str == NULL) {
+                printf("Error reading csv file: missing value\n");
+                exit(EXIT_FAILURE);
+            }
             (*data)[i * n_dim + j] = strtod(str, &endptr);
         }
         ++i;
-- 
2.43.0


From 14482ea1bc2dc9965d5f23f2eb591b6a844ad3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 35/59] fix: mazes that fill the maximum size or lack a final
 newline

A row beyond the maximum was written out of bounds before being refused, and a
last line without a newline was ignored.
---
 xcsf/env_maze.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xcsf/env_maze.c b/xcsf/env_maze.c
index e848dbb..7ad1970 100644
--- a/xcsf/env_maze.c
+++ b/xcsf/env_maze.c
@@ -116,15 +116,21 @@ env_maze_init(struct XCSF *xcsf, const char *filename)
             env->xsize = x;
             x = 0;
         } else {
+            // check maximum maze size not exceeded
+            if (x >= MAX_SIZE || y >= MAX_SIZE) {
+                printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE,
+                       MAX_SIZE);
+                fclose(fp);
+                exit(EXIT_FAILURE);
+            }
             env->maze[y][x] = (char) c;
             ++x;
         }
-        // check maximum maze size not exceeded
-        if (x > MAX_SIZE || y > MAX_SIZE) {
-            printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE, MAX_SIZE);
-            fclose(fp);
-            exit(EXIT_FAILURE);
-        }
+    }
+    // last line may have no newline
+    if (x > 0) {
+        ++y;
+        env->xsize = x;
     }
     // check if EOF came from an end-of-file or an error
     if (ferror(fp)) {
-- 
2.43.0


From 442b5395d1de51a05a42d551d7801f21e0a1c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 36/59] fix: binary encoding with more than 31 bits

The conversion to int overflowed.
---
 xcsf/utils.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xcsf/utils.h b/xcsf/utils.h
index b679fa7..b279aca 100644
--- a/xcsf/utils.h
+++ b/xcsf/utils.h
@@ -121,10 +121,13 @@ float_to_binary(const double f, char *binary, const int bits)
             binary[i] = '0';
         }
     } else {
-        int a = (int) (f * pow(2, bits));
+        double a = f;
         for (int i = 0; i < bits; ++i) {
-            binary[bits - 1 - i] = (a % 2) + '0';
-            a /= 2;
+            a *= 2;
+            binary[i] = (a >= 1) ? '1' : '0';
+            if (a >= 1) {
+                a -= 1;
+            }
         }
     }
 }
-- 
2.43.0


From 08605d6ddef01a6e0c720c485646064b3462f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:14 +0000
Subject: [PATCH 37/59] fix: endless loop selecting a random action when all
 fitness is zero

---
 xcsf/pa.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xcsf/pa.c b/xcsf/pa.c
index a465746..e9278ed 100644
--- a/xcsf/pa.c
+++ b/xcsf/pa.c
@@ -149,10 +149,16 @@ pa_best_action(const struct XCSF *xcsf)
 int
 pa_rand_action(const struct XCSF *xcsf)
 {
+    bool any = false; // no action has any fitness if it is initially zero
+    for (int i = 0; i < xcsf->n_actions; ++i) {
+        if (xcsf->nr[i] != 0) {
+            any = true;
+        }
+    }
     int action = 0;
     do {
         action = rand_uniform_int(0, xcsf->n_actions);
-    } while (xcsf->nr[action] == 0);
+    } while (any && xcsf->nr[action] == 0);
     return action;
 }
 
-- 
2.43.0


From d9417ad90ceab688e9949e0d40ceaba4fcc32145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:02 +0000
Subject: [PATCH 38/59] fix: refuse rule_dgp graphs with fewer nodes than
 outputs

The missing outputs were read out of bounds.
---
 xcsf/rule_dgp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index a350d49..291a4ed 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -31,6 +31,11 @@ rule_dgp_cond_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct RuleDGP *new = malloc(sizeof(struct RuleDGP));
     new->n_outputs = (int) fmax(1, ceil(log2(xcsf->n_actions)));
+    if (xcsf->cond->dargs->n < new->n_outputs + 1) {
+        printf("rule_dgp_init(): n(%d) < expected(%d)\n",
+               xcsf->cond->dargs->n, new->n_outputs + 1);
+        exit(EXIT_FAILURE);
+    }
     graph_init(&new->dgp, xcsf->cond->dargs);
     graph_rand(&new->dgp);
     c->cond = new;
-- 
2.43.0


From ad2a49d9bc9bb911e5cde08a63975681d8bdeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:02 +0000
Subject: [PATCH 39/59] fix: refuse an EA tournament that never selects a
 parent

The EA never returned with a tournament size of zero.
---
 xcsf/ea.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/ea.c b/xcsf/ea.c
index dcf4c7a..cd4deca 100644
--- a/xcsf/ea.c
+++ b/xcsf/ea.c
@@ -407,8 +407,8 @@ ea_type_as_int(const char *type)
 const char *
 ea_param_set_select_size(struct XCSF *xcsf, const double a)
 {
-    if (a < 0 || a > 1) {
-        return "Invalid EA SELECT_SIZE. Range: [0,1]";
+    if (a <= 0 || a > 1) {
+        return "Invalid EA SELECT_SIZE. Range: (0,1]";
     }
     xcsf->ea->select_size = a;
     return NULL;
-- 
2.43.0


From e6ff86f30b608eee92e8efe5ba4dbe2548315238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:02 +0000
Subject: [PATCH 40/59] fix: keep the predictions of a stored population

Constant predictions were zero after retrieving a stored population.
---
 xcsf/cl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 7fa9e44..7175f09 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -83,7 +83,8 @@ cl_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 void
 cl_init_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 {
-    dest->prediction = calloc(xcsf->y_dim, sizeof(double));
+    dest->prediction = malloc(sizeof(double) * xcsf->y_dim);
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
     dest->fit = src->fit;
     dest->err = src->err;
     dest->num = src->num;
-- 
2.43.0


From 9b7bfa5fb5071a03922c289a2e6e61c3cb34306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:02 +0000
Subject: [PATCH 41/59] fix: refuse action networks without an output for each
 action

The missing outputs were read out of bounds.
---
 xcsf/act_neural.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcsf/act_neural.c b/xcsf/act_neural.c
index 22dc30a..35c3367 100644
--- a/xcsf/act_neural.c
+++ b/xcsf/act_neural.c
@@ -45,6 +45,11 @@ act_neural_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct ActNeural *new = malloc(sizeof(struct ActNeural));
     neural_create(&new->net, xcsf->act->largs);
+    if (new->net.n_outputs != xcsf->n_actions) {
+        printf("act_neural_init(): n_outputs(%d) != n_actions(%d)\n",
+               new->net.n_outputs, xcsf->n_actions);
+        exit(EXIT_FAILURE);
+    }
     c->act = new;
 }
 
-- 
2.43.0


From a309d94b90cf3543aab253fbb8fc2ea0e53a6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:29 +0000
Subject: [PATCH 42/59] fix: let GP, DGP and default networks use every input

The number of inputs was fixed when the parameters were first initialised, so
systems configured afterwards, as from Python, only ever used the first input.
---
 xcsf/param.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 5c536b9..c8596a0 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -24,7 +24,11 @@
 #include "param.h"
 #include "action.h"
 #include "condition.h"
+#include "dgp.h"
 #include "ea.h"
+#include "gp.h"
+#include "neural_layer.h"
+#include "neural_layer_args.h"
 #include "prediction.h"
 #include "utils.h"
 
@@ -428,6 +432,35 @@ param_json_import_prediction(struct XCSF *xcsf, cJSON *json)
     }
 }
 
+/**
+ * @brief Sets the number of inputs to a neural network.
+ * @param [in] xcsf The XCSF data structure.
+ * @param [in,out] args Parameters of the first layer of the network.
+ */
+static void
+param_sync_layer(const struct XCSF *xcsf, struct ArgsLayer *args)
+{
+    if (args != NULL && !layer_receives_images(args->type) &&
+        args->type != DROPOUT && args->type != NOISE) {
+        args->n_inputs = xcsf->x_dim;
+    }
+}
+
+/**
+ * @brief Sets the number of inputs used by the representations.
+ * @details The dimensions may be set after the representations.
+ * @param [in] xcsf The XCSF data structure.
+ */
+static void
+param_sync(const struct XCSF *xcsf)
+{
+    tree_param_set_n_inputs(xcsf->cond->targs, xcsf->x_dim);
+    graph_param_set_n_inputs(xcsf->cond->dargs, xcsf->x_dim);
+    param_sync_layer(xcsf, xcsf->cond->largs);
+    param_sync_layer(xcsf, xcsf->pred->largs);
+    param_sync_layer(xcsf, xcsf->act->largs);
+}
+
 /**
  * @brief Sets the parameters from a json formatted string.
  * @param [in,out] xcsf The XCSF data structure.
@@ -470,6 +503,7 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
         printf("Error: unable to import parameter: %s\n", iter->string);
         exit(EXIT_FAILURE);
     }
+    param_sync(xcsf);
     cJSON_Delete(json);
 }
 
-- 
2.43.0


From 129b7fff1ee3241f4066d2ed3fbd78a3ab4d61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:58 +0000
Subject: [PATCH 43/59] fix: recompute predictions when updating the terminal
 action set

The previous action set is updated first on the previous state, which leaves
its rules holding predictions and inputs of that state. Rules that are in both
sets were then updated at the terminal step with the wrong prediction.
---
 xcsf/xcs_rl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/xcs_rl.c b/xcsf/xcs_rl.c
index 2b4e18d..84b3568 100644
--- a/xcsf/xcs_rl.c
+++ b/xcsf/xcs_rl.c
@@ -192,18 +192,20 @@ void
 xcs_rl_update(struct XCSF *xcsf, const double *state, const int action,
               const double reward, const bool done)
 {
+    bool cur = true; // whether rules hold their predictions for this state
     clset_action(xcsf, action); // create action set
     if (xcsf->prev_aset.list != NULL) { // update previous action set and run EA
         const double p = xcsf->prev_reward + (xcsf->GAMMA * pa_best_val(xcsf));
         clset_validate(&xcsf->prev_aset);
         clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, false);
+        cur = false; // predictions now correspond to the previous state
         if (xcsf->explore) {
             ea(xcsf, &xcsf->prev_aset);
         }
     }
     if (done) { // in terminal state: update current action set and run EA
         clset_validate(&xcsf->aset);
-        clset_update(xcsf, &xcsf->aset, state, &reward, true);
+        clset_update(xcsf, &xcsf->aset, state, &reward, cur);
         if (xcsf->explore) {
             ea(xcsf, &xcsf->aset);
         }
-- 
2.43.0


From a17f123118955e42a5a254647530d7c62a4bad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:48 +0000
Subject: [PATCH 44/59] fix: save the output a recurrent layer feeds back

A recurrent layer's memory is the previous output of its output layer. It was
not written by save, so a loaded system predicted differently from the saved
one.
---
 xcsf/neural_layer_recurrent.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 5aef271..e7f36de 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -512,6 +512,7 @@ neural_layer_recurrent_save(const struct Layer *l, FILE *fp)
     s += layer_save(l->input_layer, fp);
     s += layer_save(l->self_layer, fp);
     s += layer_save(l->output_layer, fp);
+    s += fwrite(l->output, sizeof(double), l->n_outputs, fp);
     return s;
 }
 
@@ -545,6 +546,7 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->output_layer, fp);
     l->output = l->output_layer->output;
     l->delta = l->output_layer->delta;
+    s += fread(l->output, sizeof(double), l->n_outputs, fp);
     set_layer_n_weights(l);
     set_layer_n_biases(l);
     return s;
-- 
2.43.0


From 016d0afebc0ed764c22f4137ca83ed786f78d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:21 +0000
Subject: [PATCH 45/59] fix: pass errors straight through a dropout layer
 outside training

When the forward pass was made outside training mode the outputs equal the
inputs, but backward still applied the mask of some earlier training pass, so
rules updated in exploitation trials were trained with an unrelated mask.
---
 xcsf/neural_layer_dropout.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_dropout.c b/xcsf/neural_layer_dropout.c
index 79755c0..29033a8 100644
--- a/xcsf/neural_layer_dropout.c
+++ b/xcsf/neural_layer_dropout.c
@@ -152,11 +152,12 @@ void
 neural_layer_dropout_backward(const struct Layer *l, const struct Net *net,
                               const double *input, double *delta)
 {
-    (void) net;
     (void) input;
     if (delta) {
         for (int i = 0; i < l->n_inputs; ++i) {
-            if (l->state[i] < l->probability) {
+            if (!net->train) {
+                delta[i] += l->delta[i];
+            } else if (l->state[i] < l->probability) {
                 delta[i] = 0;
             } else {
                 delta[i] += l->delta[i] * l->scale;
-- 
2.43.0


From 83d87071fc9b974229a364db29f3bcd03c439c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:41 +0000
Subject: [PATCH 46/59] fix: refuse evolutionary algorithm parameters that are
 not an object

---
 xcsf/param.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index c8596a0..46647c3 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -484,7 +484,7 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
         if (param_json_import_cl_general(xcsf, iter)) {
             continue;
         }
-        if (strncmp(iter->string, "ea\0", 3) == 0) {
+        if (strncmp(iter->string, "ea\0", 3) == 0 && cJSON_IsObject(iter)) {
             ea_param_json_import(xcsf, iter->child);
             continue;
         }
-- 
2.43.0


From cae4fb8061e0c623bb4b8be4ecfa079a12333c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:03 +0000
Subject: [PATCH 47/59] fix: keep blanks and number signs within strings of
 configuration files

---
 xcsf/config.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xcsf/config.c b/xcsf/config.c
index 4b9963e..b774fdd 100644
--- a/xcsf/config.c
+++ b/xcsf/config.c
@@ -43,14 +43,20 @@ config_read(struct XCSF *xcsf, const char *filename)
     char *file_buff = malloc(sizeof(char) * (len + 1));
     long n = 0;
     bool comment = false;
+    bool quoted = false;
+    int prev = 0;
     int c = 0;
     while (n < len && (c = fgetc(f)) != EOF) {
-        if (c == '#') {
+        if (!comment && c == '"' && prev != '\\') {
+            quoted = !quoted; // keep everything within a string
+        } else if (!quoted && c == '#') {
             comment = true; // ignore anything after # on a line
         } else if (c == '\n') {
             comment = false;
         }
-        if (!comment && c != ' ' && c != '\t' && c != '\n' && c != '\r') {
+        prev = c;
+        if (quoted ||
+            (!comment && c != ' ' && c != '\t' && c != '\n' && c != '\r')) {
             file_buff[n] = (char) c;
             ++n;
         }
-- 
2.43.0


From 1a4898c9e9360f433579c9c7d3100e42c473ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:11 +0000
Subject: [PATCH 48/59] fix: seed the generator before importing the other
 parameters

---
 xcsf/param.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 46647c3..bd11baf 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -471,7 +471,15 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
+    // seed first: importing the representations may draw random numbers
+    const cJSON *seed = cJSON_GetObjectItemCaseSensitive(json, "random_state");
+    if (!cJSON_IsNumber(seed) || !param_json_import_general(xcsf, seed)) {
+        seed = NULL;
+    }
     for (cJSON *iter = json->child; iter != NULL; iter = iter->next) {
+        if (iter == seed) {
+            continue;
+        }
         if (param_json_import_general(xcsf, iter)) {
             continue;
         }
-- 
2.43.0


From 398cc67199455317c2201bc29f9d4a8bcc72bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:13 +0000
Subject: [PATCH 49/59] fix: draw the default tree constants from the seeded
 generator

---
 xcsf/param.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index bd11baf..0364930 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -399,6 +399,9 @@ param_json_import_condition(struct XCSF *xcsf, cJSON *json)
             printf("Invalid condition parameter %s\n", ret);
             exit(EXIT_FAILURE);
         }
+    } else if (xcsf->cond->type == COND_TYPE_GP) {
+        // the default constants were drawn before any seed was given
+        tree_args_init_constants(xcsf->cond->targs);
     }
 }
 
-- 
2.43.0


From f59ecbc096d4ffc5afb24996e6f3da8f7461bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:59 +0000
Subject: [PATCH 50/59] fix: insert a layer at the input of a network

---
 xcsf/neural.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index fd96068..6dd21e0 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -120,7 +120,7 @@ neural_insert(struct Net *net, struct Layer *l, const int pos)
         } else {
             new->next = iter->next;
             iter->next = new;
-            if (iter->next == NULL) { // new tail
+            if (new->next == NULL) { // new tail
                 net->tail = new;
                 net->n_inputs = l->n_inputs;
             } else { // middle
-- 
2.43.0


From c892182b58fcf17bda000da01bab6625c01546b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:59 +0000
Subject: [PATCH 51/59] fix: propagate networks with dropout or noise layers in
 series while training

---
 xcsf/clset.c             | 14 ++++++++++++--
 xcsf/neural_layer_args.c | 18 ++++++++++++++++++
 xcsf/neural_layer_args.h |  3 +++
 xcsf/pa.c                |  6 +++++-
 4 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 132c4e9..7a2ccdd 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -22,7 +22,11 @@
  */
 
 #include "clset.h"
+#include "action.h"
 #include "cl.h"
+#include "condition.h"
+#include "neural_layer_args.h"
+#include "prediction.h"
 #include "utils.h"
 
 #define MAX_COVER (1000000) //!< Maximum number of covering attempts
@@ -363,8 +367,12 @@ clset_match(struct XCSF *xcsf, const double *x, const bool cover)
         blist[i] = iter;
         iter = iter->next;
     }
+    // networks with random layers share the random number generator
+    const bool serial = xcsf->explore &&
+        (layer_args_random(xcsf->cond->largs) ||
+         layer_args_random(xcsf->act->largs));
     // process conditions and actions setting m flags in parallel
-    #pragma omp parallel for
+    #pragma omp parallel for if (!serial)
     for (int i = 0; i < xcsf->pset.size; ++i) {
         cl_match(xcsf, blist[i]->cl, x);
         cl_action(xcsf, blist[i]->cl, x);
@@ -455,7 +463,9 @@ clset_update(struct XCSF *xcsf, struct Set *set, const double *x,
         blist[i] = iter;
         iter = iter->next;
     }
-    #pragma omp parallel for
+    // networks with random layers share the random number generator
+    const bool serial = xcsf->explore && layer_args_random(xcsf->pred->largs);
+    #pragma omp parallel for if (!serial)
     for (int i = 0; i < set->size; ++i) {
         cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);
     }
diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 7af0d20..0d9baca 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -532,6 +532,24 @@ layer_args_tail(struct ArgsLayer *head)
     return tail;
 }
 
+/**
+ * @brief Returns whether a network draws random numbers while training.
+ * @details Such networks share the random number generator and must therefore
+ * be propagated in series.
+ * @param [in] args Parameters of the first layer of the network.
+ * @return Whether the network has any dropout or noise layers.
+ */
+bool
+layer_args_random(const struct ArgsLayer *args)
+{
+    for (const struct ArgsLayer *iter = args; iter != NULL; iter = iter->next) {
+        if (iter->type == DROPOUT || iter->type == NOISE) {
+            return true;
+        }
+    }
+    return false;
+}
+
 /**
  * @brief Returns a bitstring representing the permissions granted by a layer.
  * @param [in] args Layer initialisation parameters.
diff --git a/xcsf/neural_layer_args.h b/xcsf/neural_layer_args.h
index 63a3c2b..59f0e47 100644
--- a/xcsf/neural_layer_args.h
+++ b/xcsf/neural_layer_args.h
@@ -78,6 +78,9 @@ layer_args_free(struct ArgsLayer **largs);
 void
 layer_args_validate(struct ArgsLayer *args);
 
+_Bool
+layer_args_random(const struct ArgsLayer *args);
+
 uint32_t
 layer_args_opt(const struct ArgsLayer *args);
 
diff --git a/xcsf/pa.c b/xcsf/pa.c
index e9278ed..213b513 100644
--- a/xcsf/pa.c
+++ b/xcsf/pa.c
@@ -23,6 +23,8 @@
 
 #include "pa.h"
 #include "cl.h"
+#include "neural_layer_args.h"
+#include "prediction.h"
 #include "utils.h"
 
 /**
@@ -76,7 +78,9 @@ pa_build(const struct XCSF *xcsf, const double *x)
             iter = iter->next;
         }
     }
-    #pragma omp parallel for
+    // networks with random layers share the random number generator
+    const bool serial = xcsf->explore && layer_args_random(xcsf->pred->largs);
+    #pragma omp parallel for if (!serial)
     for (int i = 0; i < set->size; ++i) {
         if (clist[i] != NULL) {
             cl_predict(xcsf, clist[i], x);
-- 
2.43.0


From e54a779149b1f46888706d13b892bd06da469b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:39 +0000
Subject: [PATCH 52/59] fix: refuse to fit or score without any samples

---
 xcsf/pybind_wrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 19e6afd..7917b11 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -370,6 +370,9 @@ class XCS
         if (buf_x.shape[0] != buf_y.shape[0]) {
             throw std::invalid_argument("X and Y n_samples are not equal");
         }
+        if (buf_x.shape[0] < 1) {
+            throw std::invalid_argument("X and Y must have at least 1 sample");
+        }
         const int x_dim = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
         if (x_dim != xcs.x_dim) {
             std::ostringstream error;
-- 
2.43.0


From a932ffc0205e925b8911e9308854638831e20e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:39 +0000
Subject: [PATCH 53/59] fix: check the data before discarding the population in
 fit

---
 xcsf/pybind_wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 7917b11..00ccdbc 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -527,12 +527,12 @@ class XCS
         const bool warm_start, const bool verbose, py::object callbacks,
         py::kwargs kwargs)
     {
+        load_input(train_data, X_train, y_train);
+        load_validation_data(kwargs);
         if (!warm_start) { // re-initialise XCSF as necessary
             xcsf_free(&xcs);
             xcsf_init(&xcs);
         }
-        load_input(train_data, X_train, y_train);
-        load_validation_data(kwargs);
         // get callbacks
         py::list calls;
         if (py::isinstance<py::list>(callbacks)) {
-- 
2.43.0


From 2dd1e6f3106f489851ed41cc92b5e974b2cb2196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:39 +0000
Subject: [PATCH 54/59] fix: score one random sample if asked for one

---
 xcsf/pybind_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 00ccdbc..6a3480a 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -652,7 +652,7 @@ class XCS
     {
         set_cover(cover);
         load_input(test_data, X, Y);
-        if (N > 1) {
+        if (N > 0) {
             return xcs_supervised_score_n(&xcs, test_data, N, xcs.cover);
         }
         return xcs_supervised_score(&xcs, test_data, xcs.cover);
-- 
2.43.0


From bfb36116ec2f947ad84718ada87461d4cc85696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:32 +0000
Subject: [PATCH 55/59] fix: copy unaligned numpy arrays before accessing them

---
 xcsf/pybind_wrapper.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 6a3480a..45fb997 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -59,9 +59,13 @@ extern "C" {
 #include "pybind_utils.h"
 
 /**
- * @brief Numpy array of doubles, converted to row-major layout if necessary.
+ * @brief Numpy array of doubles, converted to an aligned row-major layout if
+ * necessary.
  */
-typedef py::array_t<double, py::array::c_style | py::array::forcecast> Array;
+typedef py::array_t<double,
+                    py::array::c_style | py::array::forcecast |
+                        py::detail::npy_api::NPY_ARRAY_ALIGNED_>
+    Array;
 
 /**
  * @brief Python XCSF class data structure.
-- 
2.43.0


From 97d17a437a852ebef9c80603563bc91b9d5e09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:27 +0000
Subject: [PATCH 56/59] fix: release callback objects made from Python

The callback classes were bound with py::nodelete holders, so every
EarlyStoppingCallback and CheckpointCallback (with its strings) created from
Python was never released.
---
 xcsf/pybind_wrapper.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 45fb997..74db1a5 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -1001,21 +1001,16 @@ PYBIND11_MODULE(xcsf, m)
     double (XCS::*error1)(void) = &XCS::error;
     double (XCS::*error2)(const double, const bool, const double) = &XCS::error;
 
-    py::class_<Callback, std::unique_ptr<Callback, py::nodelete>>(m,
-                                                                  "Callback");
+    py::class_<Callback>(m, "Callback");
 
-    py::class_<EarlyStoppingCallback, Callback,
-               std::unique_ptr<EarlyStoppingCallback, py::nodelete>>(
-        m, "EarlyStoppingCallback")
+    py::class_<EarlyStoppingCallback, Callback>(m, "EarlyStoppingCallback")
         .def(py::init<py::str, int, bool, double, int, bool>(),
              "Creates a callback for terminating the fit function early.",
              py::arg("monitor") = "train", py::arg("patience") = 0,
              py::arg("restore_best") = false, py::arg("min_delta") = 0,
              py::arg("start_from") = 0, py::arg("verbose") = true);
 
-    py::class_<CheckpointCallback, Callback,
-               std::unique_ptr<CheckpointCallback, py::nodelete>>(
-        m, "CheckpointCallback")
+    py::class_<CheckpointCallback, Callback>(m, "CheckpointCallback")
         .def(py::init<py::str, std::string, bool, int, bool>(),
              "Creates a callback for automatically saving XCSF.",
              py::arg("monitor") = "train", py::arg("filename") = "xcsf.bin",
-- 
2.43.0


From c0d7923dfbed2aba89a7785d3758231e9903286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:19 +0000
Subject: [PATCH 57/59] fix: refuse population file names beyond the maximum
 length

strncpy() left names longer than MAX_LEN without a terminator, so printing,
exporting and opening them read past the end of the buffer.
---
 xcsf/param.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index 0364930..83adef0 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -683,8 +683,11 @@ param_set_random_state(struct XCSF *xcsf, const int a)
 const char *
 param_set_population_file(struct XCSF *xcsf, const char *a)
 {
+    const size_t length = strnlen(a, sizeof(char) * (MAX_LEN + 1)) + 1;
+    if (length > MAX_LEN + 1) { // would not be terminated
+        return "Invalid POPULATION_FILE. Name too long";
+    }
     free(xcsf->population_file);
-    size_t length = strnlen(a, sizeof(char) * MAX_LEN) + 1;
     xcsf->population_file = malloc(sizeof(char) * length);
     strncpy(xcsf->population_file, a, length);
     return NULL;
-- 
2.43.0


From 8c538c39ef202407b29e3443de0f4b277c838d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:30 +0000
Subject: [PATCH 58/59] fix: keep the output width of a layer in step when
 neurons are added

A connected layer with evolving neurons followed by a pooling, upsampling or
convolutional layer left its output width at the initial number of neurons, so
the following layer was resized to the wrong number of inputs.
---
 xcsf/neural_layer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/neural_layer.c b/xcsf/neural_layer.c
index d357300..5d22e2c 100644
--- a/xcsf/neural_layer.c
+++ b/xcsf/neural_layer.c
@@ -132,6 +132,7 @@ layer_add_neurons(struct Layer *l, const int N)
     const int old_n_outputs = l->n_outputs;
     const int old_n_weights = l->n_weights;
     l->n_outputs += N;
+    l->out_w = l->n_outputs;
     l->n_biases = l->n_outputs;
     l->n_weights = l->n_outputs * l->n_inputs;
     layer_guard_outputs(l);
-- 
2.43.0


From f040f4537e10f93fc956a19e15b1c63fdd7fb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:38 +0000
Subject: [PATCH 59/59] fix: export the image dimensions of dropout and noise
 layers

A dropout or noise layer at the input of a network passes its height, width
and channels on to the layers behind it, but they were missing from exported
parameters, so a network built from them saw a single row instead.
---
 xcsf/neural_layer_args.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 0d9baca..2fd9bda 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -114,7 +114,8 @@ layer_args_copy(const struct ArgsLayer *src)
 static void
 layer_args_json_export_inputs(cJSON *json, const struct ArgsLayer *args)
 {
-    if (layer_receives_images(args->type)) {
+    const bool images = layer_receives_images(args->type);
+    if (images || args->type == DROPOUT || args->type == NOISE) {
         if (args->height > 0) {
             cJSON_AddNumberToObject(json, "height", args->height);
         }
@@ -124,6 +125,8 @@ layer_args_json_export_inputs(cJSON *json, const struct ArgsLayer *args)
         if (args->channels > 0) {
             cJSON_AddNumberToObject(json, "channels", args->channels);
         }
+    }
+    if (images) {
         if (args->size > 0) {
             cJSON_AddNumberToObject(json, "size", args->size);
         }
-- 
2.43.0

