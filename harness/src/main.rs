#![allow(warnings)]
extern crate rusty_machine as rm;
mod h_bayes;
mod h_cluster;
mod h_data;
mod h_default;
mod h_gmm;
mod h_kern;
mod h_knn;
mod h_meta;
mod h_nnet;
mod h_optim;
mod h_rand;
mod h_reg;
mod h_toolkit;
mod util;
macro_rules! table {
    ($($m:ident::$f:ident),* $(,)?) => { static TABLE: &[(&str, fn())] = &[$((stringify!($f), $m::$f as fn())),*]; };
}
table! {
    h_toolkit::activ_fwd, h_toolkit::activ_inverse, h_toolkit::cost_fns, h_toolkit::regular, h_toolkit::kernels,
    h_data::dist_exp, h_data::dist_exp_neg, h_data::dist_gauss, h_data::dist_gauss_mono, h_data::dist_sample,
    h_data::minmax, h_data::nonfinite, h_data::standardize, h_data::standardize_degenerate, h_data::normalize,
    h_data::acc, h_data::row_acc, h_data::prf, h_data::prf_panics, h_data::neg_mse, h_data::confusion,
    h_rand::k_shuffler_1, h_rand::k_shuffler_2, h_rand::k_shuffler_3, h_rand::k_shuffler_4, h_rand::k_shuffler_5, h_rand::k_shuffler_6, h_rand::k_fisher_1, h_rand::k_fisher_3, h_rand::k_fisher_4, h_rand::k_fisher_6, h_rand::k_inplace_1, h_rand::k_inplace_3, h_rand::k_inplace_4, h_rand::k_inplace_6, h_rand::k_reservoir_3_0, h_rand::k_reservoir_1_1, h_rand::k_reservoir_3_3, h_rand::k_reservoir_5_2, h_rand::k_reservoir_6_3, h_rand::k_reservoir_9_4, h_rand::k_resuni_3_1, h_rand::k_resuni_4_2, h_rand::k_resuni_5_3, h_rand::k_resuni_5_2, h_rand::replay_rand, h_rand::k_folds_2_2, h_rand::k_folds_3_2, h_rand::k_folds_4_3, h_rand::k_folds_5_2, h_rand::k_permuted_9, h_rand::k_fisher_9, h_rand::k_inplace_9, h_rand::k_wide_3, h_rand::k_reservoir_16_9, h_rand::k_fisher_20, h_rand::shuffle_long, h_rand::reservoir_panics, h_rand::k_fold, h_rand::k_fold_mismatch,
    h_optim::descent, h_optim::descent_refused, h_optim::conjugate,
    h_nnet::nnet, h_nnet::nnet_mismatch,
    h_knn::knn, h_knn::knn_same, h_knn::knn_vote, h_knn::knn_refused,
    h_cluster::dbscan, h_cluster::dbscan_again, h_cluster::kmeans, h_cluster::kmeans_init, h_cluster::kmeans_refused,
    h_gmm::gmm, h_gmm::gmm_refused,
    h_bayes::nbayes, h_bayes::nbayes_refused, h_bayes::pca, h_bayes::pca_refused,
    h_kern::gp, h_kern::gp_default, h_kern::gp_big, h_kern::svm,
    h_meta::refit, h_meta::rows, h_meta::order, h_meta::features,
    h_default::defaults,
    h_reg::lin_grad, h_reg::lin_train, h_reg::logistic, h_reg::glm_pieces, h_reg::glm_train, h_reg::glm_fixed,
}
fn main() {
    symx::main(TABLE)
}
