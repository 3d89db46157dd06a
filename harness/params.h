// Every parameter in force, read from the system itself (not from the export
// code). Arguments of representations that are not selected are left out.
#pragma once
#include "flat.h"

inline void flat_largs(Flat &f, const struct ArgsLayer *a)
{
    for (; a; a = a->next) {
        f.d("layer.type", a->type); f.d("layer.n_inputs", a->n_inputs); f.d("layer.n_init", a->n_init);
        if (a->type == CONNECTED || a->type == RECURRENT || a->type == LSTM || a->type == CONVOLUTIONAL) f.d("layer.n_max", a->n_max);
        f.d("layer.max_neuron_grow", a->max_neuron_grow); f.d("layer.function", a->function); f.d("layer.recurrent_function", a->recurrent_function);
        f.d("layer.height", a->height); f.d("layer.width", a->width); f.d("layer.channels", a->channels); f.d("layer.size", a->size);
        f.d("layer.stride", a->stride); f.d("layer.pad", a->pad); f.d("layer.eta", a->eta); f.d("layer.eta_min", a->eta_min);
        f.d("layer.momentum", a->momentum); f.d("layer.decay", a->decay); f.d("layer.probability", a->probability); f.d("layer.scale", a->scale);
        f.d("layer.evolve_weights", a->evolve_weights); f.d("layer.evolve_neurons", a->evolve_neurons); f.d("layer.evolve_functions", a->evolve_functions);
        f.d("layer.evolve_eta", a->evolve_eta); f.d("layer.evolve_connect", a->evolve_connect); f.d("layer.sgd_weights", a->sgd_weights);
    }
}
inline Flat flat_params(const struct XCSF *x)
{
    Flat f;
    f.d("x_dim", x->x_dim); f.d("y_dim", x->y_dim); f.d("n_actions", x->n_actions);
    f.d("omp_num_threads", x->OMP_NUM_THREADS); f.d("random_state", x->RANDOM_STATE); f.d("pop_init", x->POP_INIT);
    f.d("max_trials", x->MAX_TRIALS); f.d("perf_trials", x->PERF_TRIALS); f.d("pop_size", x->POP_SIZE); f.d("loss_func", x->LOSS_FUNC);
    if (x->LOSS_FUNC == LOSS_HUBER) f.d("huber_delta", x->HUBER_DELTA);
    if (x->n_actions > 1) { f.d("gamma", x->GAMMA); f.d("teletransportation", x->TELETRANSPORTATION); f.d("p_explore", x->P_EXPLORE); }
    f.d("set_subsumption", x->SET_SUBSUMPTION); f.d("theta_sub", x->THETA_SUB); f.d("e0", x->E0); f.d("alpha", x->ALPHA); f.d("nu", x->NU);
    f.d("beta", x->BETA); f.d("delta", x->DELTA); f.d("theta_del", x->THETA_DEL); f.d("init_fitness", x->INIT_FITNESS); f.d("init_error", x->INIT_ERROR);
    f.d("m_probation", x->M_PROBATION); f.d("stateful", x->STATEFUL); f.d("compaction", x->COMPACTION);
    f.d("ea.select_type", x->ea->select_type);
    if (x->ea->select_type == EA_SELECT_TOURNAMENT) f.d("ea.select_size", x->ea->select_size);
    f.d("ea.theta_ea", x->ea->theta); f.d("ea.lambda", x->ea->lambda); f.d("ea.p_crossover", x->ea->p_crossover); f.d("ea.err_reduc", x->ea->err_reduc);
    f.d("ea.fit_reduc", x->ea->fit_reduc); f.d("ea.subsumption", x->ea->subsumption); f.d("ea.pred_reset", x->ea->pred_reset);
    f.d("condition.type", x->cond->type);
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERRECTANGLE_UBR: case COND_TYPE_HYPERELLIPSOID:
            if (x->cond->type != COND_TYPE_HYPERRECTANGLE_UBR) f.d("condition.eta", x->cond->eta);
            f.d("condition.min", x->cond->min); f.d("condition.max", x->cond->max); f.d("condition.spread_min", x->cond->spread_min);
            break;
        case COND_TYPE_TERNARY: f.d("condition.bits", x->cond->bits); f.d("condition.p_dontcare", x->cond->p_dontcare); break;
        case COND_TYPE_GP: {
            const struct ArgsGPTree *t = x->cond->targs;
            f.d("gp.max", t->max); f.d("gp.min", t->min); f.d("gp.n_inputs", t->n_inputs); f.d("gp.n_constants", t->n_constants); f.d("gp.init_depth", t->init_depth); f.d("gp.max_len", t->max_len);
            break;
        }
        case COND_TYPE_DGP: case RULE_TYPE_DGP: {
            const struct ArgsDGP *t = x->cond->dargs;
            f.d("dgp.evolve_cycles", t->evolve_cycles); f.d("dgp.max_k", t->max_k); f.d("dgp.max_t", t->max_t); f.d("dgp.n", t->n); f.d("dgp.n_inputs", t->n_inputs);
            break;
        }
        case COND_TYPE_NEURAL: case RULE_TYPE_NEURAL: flat_largs(f, x->cond->largs); break;
    }
    f.d("prediction.type", x->pred->type);
    switch (x->pred->type) {
        case PRED_TYPE_NLMS_LINEAR: case PRED_TYPE_NLMS_QUADRATIC:
            f.d("prediction.x0", x->pred->x0); f.d("prediction.eta", x->pred->eta); f.d("prediction.evolve_eta", x->pred->evolve_eta);
            if (x->pred->evolve_eta) f.d("prediction.eta_min", x->pred->eta_min);
            break;
        case PRED_TYPE_RLS_LINEAR: case PRED_TYPE_RLS_QUADRATIC:
            f.d("prediction.x0", x->pred->x0); f.d("prediction.lambda", x->pred->lambda); f.d("prediction.scale_factor", x->pred->scale_factor);
            break;
        case PRED_TYPE_NEURAL: flat_largs(f, x->pred->largs); break;
    }
    if (x->n_actions > 1 && !rule_act(x)) {
        f.d("action.type", x->act->type);
        if (x->act->type == ACT_TYPE_NEURAL) flat_largs(f, x->act->largs);
    }
    return f;
}
inline void flat_constants(Flat &f, const struct XCSF *x)
{
    if (x->cond->type == COND_TYPE_GP) f.arr("gp.constants", x->cond->targs->constants, x->cond->targs->n_constants);
}
