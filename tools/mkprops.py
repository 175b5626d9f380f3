"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": observe, "hook_needed": hook}})
AP = "misfit/model/aper_model.py"; KF = "misfit/model/kin_functions.py"; KM = "misfit/model/kin_model.py"
KC = "misfit/model/kin_classes.py"; GA = "misfit/galaxy.py"; GU = "misfit/general/galaxy_utils.py"
UT = "misfit/general/general_utils.py"; IN = "misfit/instrument.py"; FC = "misfit/fit/fit_core.py"
F2 = "misfit/fit/fit2D.py"; F1 = "misfit/fit/fit1D.py"; EL = "misfit/model/emission_lines_model.py"
IO = "misfit/general/io.py"; FIO = "misfit/fit/fit_io.py"; MK = "misfit/mock/generate_basic.py"
PU = "misfit/plot/plot_utils.py"

prop("P01", "The 2D emission-line model equals the documented forward model",
 "An unscaled KinModel2D model is, for every geometry, instrument, theta and option, the (row, wavelength) sum over slit width and line of sight of the emission of an inclined rotating disk: intensity profile at (r, z), inclination from q and q0, slit misalignment delt_PA, line-of-sight velocity vel(r)*cos(phi)*sin(i), one Gaussian of width sigma per line at restwave*(1+z), convolved with the PSF and then the instrument resolution, centred on row m0+m0_shift. Options do only what they document: nSubpixels and wavelength up-sampling refine the sampling, sigma_floor and absvalsigma only change small/negative dispersions, spec_type 'velocity' gives the same in velocity units. The model of one configuration doesn't depend on which others (however similar) were calculated before in the same process.",
 ["inputs", "configurations"], "all galaxy structures, slit/PSF/resolution settings, kinematic parameters, line sets and model options",
 "The stable tests only check that two mock shapes are created; no 2D model value is pinned, and the input space (geometry x instrument x options) is continuous.",
 [AP, KF, KC, KM, IN],
 [("AperModel2D grid, spectral cube, PSF, LSF", AP + ":AperModel2D"), ("sky-to-galaxy rotation", KF + ":transform_int_3d"), ("Gaussian lines collapsed over the line of sight", KF + ":add_sigma_collapse_z"), ("PSF and resolution convolution", KF + ":PSF_convolve, inst_convol_complete")],
 [("model", "2D model (rows, wavelengths)", KM + ":KinModel2D.model")],
 ["KinModel2D.make_model", "KinModel2D.update_model", "mock.generate_mock_slit_obs"])

prop("P02", "The 2D model respects the geometric and Doppler symmetries of a disk",
 "For a symmetric slit and centred object: reversing V_a, or turning delt_PA by 180 deg, mirrors the model in the spatial direction, while changing the sign of delt_PA leaves it unchanged. Scaling the wavelengths and (1+z) together only rescales the flux density, a model in velocity units doesn't depend on z or the wavelengths (and reversing V_a and the velocity axis mirrors it), permuting lines of a set changes nothing except which one is primary, and shifting m0 by whole rows (or m0_shift instead of m0) moves the model by those rows.",
 ["inputs", "configurations"], "all galaxies, thetas, instruments and related pairs of configurations",
 "Relations between pairs of continuous configurations; tests only look at single models' shapes.",
 [AP, KF], [("grid, offset and rotation", AP + ":AperModel2D.setup_model_grid"), ("Doppler shift", KF + ":add_sigma_collapse_z")],
 [("model", "2D model (rows, wavelengths)", KM + ":KinModel2D.model")], ["KinModel2D.make_model"])

prop("P03", "The 2D model conserves line flux whatever the sampling",
 "The total flux of an unscaled model whose lines lie within the wavelength range equals the intrinsic emission within the slit times the sum of the line flux ratios: it doesn't depend on the velocities, dispersion (however small, incl. zero), instrument resolution, wavelength sampling or up-sampling factor, or (per unit length of the sub-pixel rows) number of spatial sub-pixels, to the accuracy of the sampling. The PSF only moves flux spatially: it never creates any.",
 ["inputs", "configurations"], "all galaxies, thetas, samplings, resolutions and PSFs",
 "A conservation law over all inputs and sampling options; tests never sum a model.",
 [AP, KF], [("downsampling", AP + ":downsample_to_real_wave, trim_downsample_spectral_cube"), ("flux-normalized convolutions", KF + ":PSF_convolve, inst_convol_complete"), ("rebin", KF + ":rebin")],
 [("model", "2D model (rows, wavelengths)", KM + ":KinModel2D.model")], ["KinModel2D.make_model"])

prop("P04", "A model depends only on its current inputs, and never modifies them",
 "After any sequence of make/update/3D model calls on any number of models (also sharing galaxy, instrument, options or profile objects' defaults), a model equals the one a fresh instance with the same current parameters gives. No call modifies the caller's theta, settings, spectrum arrays, or the instrument's and galaxy's scientific attributes, and instances don't share mutable defaults.",
 ["histories", "inputs"], "all sequences of model operations and interleavings of model instances",
 "The value must be right after every history of updates (an MCMC makes ~1e6), while tests make a model once.",
 [AP, KM, KC], [("incremental update of cached grid and matrices", AP + ":AperModel2D.update_model"), ("parameter expansion", KM + ":KinModel2D.update_parameters")],
 [("cached grids, wave arrays, PSF kernel", "state kept between evaluations", AP + ":AperModel2D"), ("theta", "full parameter array", KM + ":KinModel2D.theta")],
 ["KinModel2D.make_model", "KinModel2D.update_model", "KinModel2D.make_3D_int_model", "KinModel2D.update_3D_int_model"])

prop("P05", "Each model row is scaled by its own optimal amplitude",
 "A scaled KinModel2D model is, row by row, the unscaled model times the inverse-variance weighted least-squares amplitude of the data in the columns without skylines (wh_nosky): no other amplitude gives a lower chi-squared there, data in skyline columns don't matter, and rescaling the data rescales the model. Rows without model flux or with a non-finite amplitude become zero, so one bad row never contaminates the other rows.",
 ["inputs"], "all data, errors, skyline columns and models, incl. empty rows and non-finite pixels",
 "Optimality against all alternative amplitudes, and degenerate rows, over continuous data; untested.",
 [KM], [("row-wise amplitude", KM + ":KinModel2D.scale_model")], [("wh_nosky", "columns used for scaling", GA + ":ObsSpectrum2D.wh_nosky")],
 ["KinModel2D.make_model", "KinModel2D.update_model"])

prop("P06", "Likelihood and chi-squared are the documented weighted sums over unmasked pixels",
 "model_llike is -0.5*sum over unmasked pixels of [weight*((data-model)/err)^2 + log10(2 pi err^2)], model_chisq is the sum of weight*((data-model)/err)^2, and the (un)weighted reduced values divide by (number of unmasked pixels - number of free parameters). Masked pixels never contribute, whatever they hold (also NaN, inf, zero error), and the statistics don't modify data or model.",
 ["inputs", "configurations"], "all data, errors, masks, weights and models",
 "The likelihood decides every fit, but no stable test evaluates it, and it must hold for all masks/weights and garbage in masked pixels.",
 [KM], [("log likelihood", KM + ":_model_llike"), ("chisq", KM + ":_model_chisq, _model_chisq_no_weight")], [("spec_mask, fitting_weight_matrix", "mask and weights", GA + ":ObsSpectrum2D")],
 ["KinModel2D.model_llike", "KinModel2D.model_chisq", "KinModel2D.model_redchisq*"])

prop("P07", "Free and fixed parameters map consistently everywhere, within prior bounds",
 "For every pattern of free/fixed parameters, the fitting parameters are placed, in order, exactly at the free positions of theta while fixed ones keep their initial values; a wrong number of fitting parameters is rejected; the velocity, dispersion and (m0_shift, z) parts of theta reach the right profiles. The flat prior is 0 inside (and at) all bounds of the free parameters and -inf outside, ignoring fixed parameters, and initial walkers all start within the bounds, spread over them; all of this also after a fit is set up again with other settings (a prior class of the user is kept).",
 ["configurations", "inputs"], "all theta lengths, free/fixed patterns, bounds and profile splits",
 "Index bookkeeping for all 2^n free/fixed patterns; tests use one.",
 [KM, KC, FC], [("parameter expansion", KM + ":KinModel2D.update_parameters"), ("profile split", KC + ":KinProfile.update_theta"), ("flat prior", KC + ":ThetaPriorFlat.log_prior"), ("initial walkers", FC + ":init_walker_pos, initialize_fitting_theta")],
 [("theta, theta_vary", "full parameters, free flags", KM + ":KinModel2D")], ["KinModel2D.update_model", "ThetaPriorFlat.log_prior", "fit_core.init_walker_pos", "fit_core.initialize_fitting_theta"])

prop("P08", "The posterior the sampler explores is prior times likelihood of the full fit",
 "fit_core.lnprob of any parameters equals log prior + model log likelihood of the full fit object at these parameters: -inf outside the bounds or if non-finite, and identical when evaluated through the pruned copy given to the sampler, repeatedly, in any order, after pickling, or after other parameters were evaluated.",
 ["histories", "inputs"], "all parameters, evaluation orders and copies (pruned, pickled) of a fit",
 "It is a stateful evaluation repeated ~1e6 times from copies in worker processes; no stable test evaluates it.",
 [FC, F2, KM], [("log probability", FC + ":lnprob"), ("pruned copy", FC + ":make_pruned_fitEmis2D_class")], [("kinModel", "stateful model in the fit", F2 + ":FitEmissionLines2D.kinModel")],
 ["fit_core.lnprob", "fit_core.run_mcmc (emcee sampler)"])

prop("P09", "Spectrum preparation keeps all arrays aligned with the observed pixels",
 "After fit_prep_calcs every 2D array (flux, continuum-included flux, continuum, error, masks, weights) and wave, restwave and row index still refer to the same observed pixels: the kept columns are exactly those within the line range, the kept rows are contiguous, around the object and within the (dither-limited) bounds, and m0, ypos, m_lims and row/column index lists are expressed in the trimmed frame. flux is the input minus the continuum model there, errors are unchanged, and a second call is a no-op.",
 ["inputs", "configurations"], "all spectra, masks, trim ranges, object positions, dither settings and line groups",
 "Alignment must survive every combination of trims and masks; the preparation is not exercised by a stable test.",
 [GA, GU], [("preparation sequence", GA + ":ObsSpectrum2D.fit_prep_calcs"), ("wavelength trim", GU + ":trim_spectrum_2D_wavelength"), ("spatial trim", GU + ":trim_spectrum_2D_spatial"), ("object extent", GU + ":vert_position")],
 [("flux, flux_err, spec_mask, m0, ypos, wave, ...", "prepared spectrum", GA + ":ObsSpectrum2D")], ["ObsSpectrum2D.fit_prep_calcs", "trim_spectrum_2D_wavelength", "trim_spectrum_1D"])

prop("P10", "Continuum subtraction removes exactly the fitted linear continuum",
 "Subtracting the continuum subtracts, in each row, a straight line whose slope is that of the 1D spectrum and whose intercept is the error-weighted fit to that row's unmasked, line-free pixels: continuum that is linear in wavelength is removed exactly, line emission inside the line mask range, masked or non-finite pixels don't influence it, and subtracting it is linear in the data. Without continuum subtraction the flux is unchanged (apart from missing data).",
 ["inputs", "configurations"], "all spectra, slopes, line positions, masks and missing pixels",
 "Exactness and independence from excluded pixels are relations over all data; untested.",
 [GU], [("continuum subtraction", GU + ":subtract_continuum_2D")], [("cont_model", "subtracted continuum", GA + ":ObsSpectrum2D")], ["ObsSpectrum2D.subtract_continuum", "ObsSpectrum2D.fit_prep_calcs"])

prop("P11", "Masks exclude exactly the missing, skyline, low-S/N and edge pixels",
 "The skyline mask excludes exactly the columns whose error reaches cutoff x median error and wh_sky/wh_nosky partition the columns accordingly; rows at and beyond the first row of a run of low S/N rows on either side of the object are masked, others not; missing (non-finite) pixels and edge pixels (num_edge on each side of the valid range) are masked. Masks only ever add exclusions to the input mask.",
 ["inputs"], "all error arrays, S/N profiles, missing-data patterns and spectra lengths",
 "Boundary and run-length logic over all patterns of rows/columns; untested.",
 [GU, GA], [("skyline columns", GU + ":get_skyline_mask_2D"), ("low S/N rows", GU + ":get_low_snr_mask_2D"), ("missing pixels, edges", GU + ":spec_mask_missing, mask_edges_1D"), ("runs", UT + ":wh_continuous")],
 [("mask_sky, mask_low_snr, spec_mask", "masks", GA + ":ObsSpectrum2D")], ["ObsSpectrum2D.get_skyline_mask", "ObsSpectrum2D.get_low_snr_mask", "ObsSpectrum1D.mask_edges", "general_utils.wh_continuous"])

prop("P12", "Fit weights are a normalized per-row profile of the chosen kind",
 "calculate_fit_weights gives one non-negative weight per row, constant along the row and summing to one over rows: proportional to 1/(row S/N) for 'up-edges', to the collapsed profile for 'optimal', uniform for 'none'; rows flagged as low S/N get zero weight (except 'none').",
 ["inputs", "configurations"], "all spectra, masks, low-S/N row lists and weighting types",
 "Normalization and zeroing must hold for all S/N profiles and flagged rows; untested.",
 [GU], [("weights", GU + ":calculate_2D_fit_weights")], [("fitting_weight_matrix", "weights", GA + ":ObsSpectrum2D")], ["ObsSpectrum2D.calculate_fit_weights"])

prop("P13", "Measured object position and line wavelength follow the object",
 "For a spectrum with a clear emission line, the measured position (m0 + m0_shift), line wavelength lam0 and spatial extent follow the true ones: moving the object by whole rows or the line in wavelength moves the measurement by the same amount, and rescaling the flux changes nothing. Where no row has enough signal, the given (or expected) wavelength and no shift are kept. The y-profile fit recovers the position and width of a compact source.",
 ["inputs"], "all positions, widths, fluxes and noise realizations of a clear line",
 "Equivariance over continuous positions; untested.",
 [GU], [("exact position", GU + ":get_m0_lam0_pos_2D"), ("vertical extent", GU + ":vert_position"), ("y profile", GU + ":fit_emission_y_profile")], [("m0, m0_shift, lam0, m_lims", "position", GA + ":ObsSpectrum2D")],
 ["ObsSpectrum2D.fit_prep_calcs", "ObsSpectrum2D.get_m0_lam0_pos", "ObsSpectrum2D.fit_emission_y_profile"])

prop("P14", "The 1D emission-line model and fit recover what is in the spectrum",
 "The 1D line model is the continuum plus one Gaussian per line of the requested flux (or fixed ratio), redshift and dispersion. Fitting a spectrum made of this model recovers redshift, dispersion, fluxes and continuum for any order/number of lines, masked pixels don't influence the fit, and scaling flux and error by a constant only scales fluxes. Lines, ratios and wavelengths given in part are completed from the tables, settings given later are used, and an earlier fit of the same galaxy, with other settings, doesn't influence the next.",
 ["inputs", "configurations"], "all line sets, redshifts, dispersions, fluxes, masks and samplings",
 "Recovery over continuous parameters and line groupings; no stable test fits a 1D spectrum.",
 [EL, F1], [("1D line model", EL + ":EmissionLinesSpectrum1DModel"), ("fit", F1 + ":FitEmissionLines1D")], [("final_values", "fit results", F1)], ["FitEmissionLines1D.fit", "EmissionLinesSpectrum1DModel"])

prop("P15", "1D fit errors and instrument-corrected dispersions are consistent",
 "Monte Carlo errors of a 1D fit are the spread of fits to perturbed spectra (scaling with the noise, zero without), bracket the best fit, and leave the best-fit values unchanged. The instrument-corrected dispersion is sqrt(sigma_obs^2 - sigma_inst^2) in km/s (zero/limit if unresolved) with the same instrument resolution used for value and errors.",
 ["inputs", "configurations"], "all noise levels, resolutions and dispersions (also unresolved)",
 "Statistical and edge-case (unresolved) behaviour over continuous inputs; untested.",
 [F1], [("Monte Carlo errors", F1), ("instrument correction", F1)], [("errors", "fit errors", F1)], ["FitEmissionLines1D.fit"])

prop("P16", "1D dispersion aperture corrections equal the documented integral",
 "AperModel1DDisp and AperModel1DDispMisalign give the luminosity-weighted aperture dispersion of a dispersion profile (slit and extraction aperture, PSF, Sersic light, axis ratio and misalignment, optimal or boxcar extraction) relative to its value within the reference radius, for every galaxy and instrument. A constant profile gives exactly its own value, the ratio doesn't depend on flux units, and misalignment by delt_PA, -delt_PA or 180+delt_PA is equivalent. Calculating it again gives the same, also when the instrument serves other models.",
 ["inputs", "configurations"], "all galaxies, apertures, PSFs, offsets and extraction methods",
 "Tests pin one galaxy with three angles; the integral must hold for all structures, apertures, PSFs and offsets.",
 [AP, KF], [("aperture integral", KF + ":sigma_aper_dispersion, sigma_aper_dispersion_misalign"), ("reference dispersion", KF + ":sigma_e_dispersion"), ("grid", AP + ":AperModel1DDispBase.setup_model_grid")], [("disp_aper_ratio", "correction", AP)], ["AperModel1DDisp", "AperModel1DDispMisalign"])

prop("P17", "1D rotation aperture corrections equal the documented integral",
 "AperModel1DRot gives the RMS velocity sqrt(V^2+sigma^2), luminosity-weighted over the slit and extraction aperture after PSF convolution, of an inclined rotating disk, relative to its value at the reference radius, for every galaxy, instrument and V/sigma (incl. 0 and None). The ratio is unchanged when all velocities are scaled, and under delt_PA -> -delt_PA or 180 deg turns for a centred object. Calculated again, with the same or changed velocities, it equals a fresh model's, also when the instrument serves other models.",
 ["inputs", "configurations"], "all galaxies, apertures, PSFs, V/sigma and turnover radii",
 "Tests pin one galaxy with a few angles.",
 [AP, KF, KC], [("kinematic cube and aperture sum", AP + ":AperModel1DRot")], [("disp_aper_ratio", "correction", AP)], ["AperModel1DRot"])

prop("P18", "PSF kernels have the documented shape, symmetry and width",
 "For every PSF_FWHM, type (case-insensitive; unknown types are Gaussian) and sampling, the PSF kernel generated on coordinates (x, y) has shape (len(y), len(x)), its value depends only on radius, falls to half its peak at FWHM/2 (Gaussian or Moffat with the given beta), and with dithering half of it is subtracted at +- the dither offset in y. PSF and resolution convolution keep an object's position and total flux.",
 ["inputs", "configurations"], "all FWHM, beta, dither offsets and samplings",
 "Functional identity over continuous arguments; tests never look at a kernel.",
 [IN, KF], [("kernels", IN + ":PSF_stamp_gauss, PSF_stamp_moffat"), ("convolution", KF + ":PSF_convolve, PSF_convolve_flat")], [("PSF", "point spread function", IN + ":PSFBase")], ["PSF.generate_conv_stamp", "Instrument"])

prop("P19", "MCMC sampling records exactly the chain that was sampled, within the prior",
 "A run of the 2D fit records, for every walker and step after burn-in, the sampled parameters with their log probability: shapes match walkers x steps x free parameters, no step is lost or repeated, each recorded log probability is the one of its parameters, all samples are inside the prior bounds, and the result with the same random state is reproducible and independent of the number of processes or the sampler being saved. Early stopping ends only once the criteria hold; a run continued from a saved chain keeps the saved steps.",
 ["histories", "configurations", "schedules"], "all sampler settings (walkers, steps, burn-in, nCPUs, early stop), free/fixed patterns and random states",
 "A property of whole sampling histories; the repository's MCMC test doesn't pass reliably.",
 [FC, FIO], [("sampling loop", FC + ":run_mcmc"), ("sampler summary", FIO + ":make_emcee_sampler_dict")], [("sampler_dict", "recorded chain", F2 + ":FitEmissionLines2D.sampler_dict")], ["fit_core.run_mcmc", "fit_core.lnprob", "FitEmissionLines2D.fit"])

prop("P20", "Posterior summaries describe the recorded chain",
 "The best-fit values and errors are those of the recorded flattened chain: 1 and 2 sigma limits are its 15.865/84.135 and 2.275/97.725 percentiles, the best fit is the peak of its density (jointly for linked parameters), and derived columns (V_RE, V_22, sigma ratios) follow from each sample's parameters at re_mass and 2.2 scale lengths. The summary doesn't depend on sample order, is equivariant under shifting/scaling a parameter, isn't changed by repeating the analysis, and maps back to the free parameters in the right order; the saved best-fit model stays the one at those parameters when the model is evaluated elsewhere.",
 ["inputs", "histories"], "all chains, free/fixed patterns, linked groups and repeated analyses",
 "Statistics of arbitrary chains (bimodal, constant, skewed) and index maps; untested.",
 [FC, UT], [("posterior summary", FC + ":get_param_posterior_bestfits, get_chain_results"), ("derived columns", FC + ":add_v_re_22"), ("KDE peaks", UT + ":find_peak_gaussian_KDE, get_bestfit_values_linked")], [("mcmc_results", "summary", FC + ":MCMCResults")], ["FitEmissionLines2D.analyze_results", "fit_core.get_chain_results"])

prop("P21", "Saved fits reload to the same results",
 "A fit saved to disk and reloaded (sampler dictionary, results object) gives the same chain, posterior summary, best-fit parameters and 2D model as in memory, in the same or another process. Saving doesn't modify the in-memory fit, reloading doesn't modify the files (unless resave_bestfit is set), a later save to the same file replaces the earlier results, and nothing is written where no file name is set.",
 ["histories", "configurations"], "all fits, file settings and save/reload sequences",
 "A round trip over arbitrary fits and file states; untested.",
 [FIO, F2, FC], [("pickled sampler", FIO), ("saved results", F2 + ":FitEmissionLines2D.save_bestfit_model, make_pruned_fitEmis2D_result_class"), ("reload", F2 + ":reload_results, reload_sampler, reload_bestfit_model")], [("files", "saved sampler and results", FIO)], ["FitEmissionLines2D.save_bestfit_model", "reload_results", "FitEmissionLines2D.reload_sampler", "FitEmissionLines2D.reload_bestfit_model"])

prop("P22", "The slit misalignment is the angle between galaxy major axis and slit",
 "delt_PA computed from the image, galaxy and slit position angles is the angle between galaxy major axis and slit modulo 180 deg, within [-90, 90], for all angle combinations: rotating image and galaxy frame together, or any angle by 180 deg, doesn't change it, and a given delt_PA is kept by the fit preparation. Projected sizes for that angle are those of the ellipse. Image rotations for plots put the slit vertical and carry positions along with the image.",
 ["inputs"], "all position angles, axis ratios and radii",
 "Angle wrap-around over all combinations; untested.",
 [GU, UT], [("angle", GU + ":calculate_slit_offset_angles"), ("projections", UT + ":y_proj_major, x_proj_major, y_proj_phys")], [("delt_PA", "misalignment", GA + ":Galaxy.delt_PA")], ["Galaxy.calculate_slit_object_delta_PA", "general_utils.y_proj_major"])

prop("P23", "Line, range and cutoff lookups return the entry asked for",
 "For every line group, line and band in the parameter files (shipped or user-supplied, any order and spacing), lookups return exactly the entry of that name: line names with the primary line first, rest wavelengths, flux ratios, trim/continuum/mask ranges and skyline cutoffs, and explicit values given for the spectrum, fit or 1D line set take precedence over files.",
 ["configurations", "inputs"], "all names in shipped and user-supplied parameter files",
 "Must hold for user-supplied files and all names; tests use one line.",
 [IO, GA], [("readers", IO), ("initialization", GA + ":ObsSpectrum2D.initialize_lineset, initialize_skylevels")], [("linenames_arr, restwave_arr, flux_ratio_arr", "line set", GA + ":ObsSpectrum2D")], ["general.io.read_*", "ObsSpectrum2D.initialize_lineset"])

prop("P24", "Plotting shows the data it is given, conserves image flux and changes nothing",
 "Rebinning for plots (box_integrate, box_integrate_pstamp) conserves the integrated flux of arbitrary pixel grids and reproduces constants; drawing any of the fit plots leaves the fit, galaxy, instrument and chain unchanged, and the drawn data, model and residual panels contain the fit's own arrays.",
 ["inputs", "configurations"], "all grids, fits and plot options",
 "Conservation over arbitrary grids, purity over all fits; plots are untested.",
 [PU, "misfit/plot/plot_bestfit.py", "misfit/plot/plot_mcmc.py", "misfit/plot/plot_image_slit.py", "misfit/plot/plot_trace.py"], [("flux-conserving rebin", PU + ":box_integrate"), ("plots", "misfit/plot/plot_bestfit.py")], [("fitEmis2D", "plotted fit", F2)], ["plot.plot_utils.box_integrate", "plot.plot_bestfit", "plot.plot_mcmc"])

prop("P25", "IFU cubes and slit models describe the same object",
 "The 3D model cube has one spectrum per whole pixel over a square field, its rows and columns are centred on the object, and summing it over the slit's columns gives the 2D slit model without instrument resolution; rotating the galaxy by 90 deg transposes the spatial axes, and updating the cube equals making it anew without changing the instrument. Mock cubes have the profiles and settings given.",
 ["inputs", "histories"], "all galaxies, samplings and parameters",
 "Cross-consistency of two code paths over continuous inputs; untested.",
 [KM, AP, MK], [("cube", KM + ":make_3D_int_model, downsample_3D_int_model")], [("model_cube", "3D model", KM + ":KinModel2D.model_cube")], ["KinModel2D.make_3D_int_model", "KinModel2D.update_3D_int_model", "mock.generate_mock_IFU_cube"])

prop("P26", "A spectrum made from the model is best explained by its true parameters",
 "For a mock galaxy whose 2D spectrum is generated by the model itself (plus continuum and skylines), the prepared fit's chi-squared at the true parameters is consistent with zero (noise-free) and lower than at clearly different parameters, for any flux units; and the MCMC fit's chain concentrates around the truth.",
 ["inputs", "configurations"], "all mock galaxies, instruments and flux scalings",
 "End-to-end identifiability over continuous inputs; the only such test is one slow, unreliable MCMC fit.",
 [F2, FC, KM, GA, GU, AP], [("fit", F2 + ":FitEmissionLines2D.fit"), ("preparation", GA + ":ObsSpectrum2D.fit_prep_calcs")], [("mcmc_results", "fit results", FC + ":MCMCResults")], ["FitEmissionLines2D", "KinModel2D.model_chisq", "fit_core.lnprob"])

prop("P27", "Light off the centre of the slit is shifted in wavelength by its position",
 "With do_position_wave_shift, every velocity of a (sub)row is offset by (instrument_resolution FWHM in km/s) x d/slit_width, where d is the position across the slit of that row's PSF-convolved light (of the Gaussian fitted to it, kept within the slit), for every galaxy, slit and sampling - in 2D models made directly, updated or by the mock module, and in the rotation correction. Light symmetric about the slit's axis isn't shifted, nor is anything without the option; velocity spectra are rejected.",
 ["inputs", "configurations", "histories"], "all galaxies, orientations, slits, resolutions, samplings and sequences of updates",
 "A functional identity over continuous inputs; no test uses the option.",
 [AP, KF, KM], [("row offsets", KF + ":calculate_effective_inst_res_lam_shift"), ("applied to the velocities", AP + ":AperModel2D.calculate_spectral_cube, AperModel1DRot.calculate_kin_cube")], [("delta_position_velspace", "velocity offset of each row", AP + ":AperModel2D")], ["KinModel2D.make_model", "KinModel2D.update_model", "AperModel2D", "AperModel1DRot", "generate_mock_slit_obs"])

prop("P28", "Settings given to the public objects are the ones used, by any route",
 "Every documented setting of the public classes (galaxies, spectra, PSFs, instruments, model and MCMC options, parameter settings, profiles, fits) has the value given - on construction or by setAttr, in any order, falsy values included - and otherwise its documented default; unknown keywords change nothing. Equal settings give the same model, fit and profiles by whatever route they were given: on construction, by setAttr on objects (galaxy, instrument and its PSF, options, model, fit) already used with others, or on copies. Velocity, dispersion and intensity components with their parameters, and line sets, given explicitly are the ones evaluated, a spectrum set in a galaxy gets its rest wavelengths from the current redshift and keeps the mask given, copies and other instances are independent, and the values given aren't modified. A 1D fit starts from the redshift, dispersion and fluxes given (by default the galaxy's redshift), within the redshift range and with the continuum order given, and changing other settings afterwards keeps its results.",
 ["configurations", "histories", "inputs"], "all public classes, subsets and values of settings, sequences of constructions, setAttr calls and copies",
 "Holds for every combination and history of settings; tests construct a few objects once and look at none of their settings.",
 [GA, IN, KM, KC, FC, F2, EL], [("galaxy and spectrum settings", GA + ":Galaxy.setAttr, Galaxy.set_spectrum_2D"), ("instrument and its PSF", IN + ":Instrument, PSFBase.setAttr"), ("profiles", KC + ":KinProfile, IntensityProfile"), ("model options", KM + ":KinModel2DOptions, KinModel2D.setAttr"), ("MCMC options and fit", FC + ":MCMC2DOptions; " + F2 + ":FitEmissionLines2D.setup_model")],
 [("settings", "public attributes of the objects", "misfit/*")], ["constructors, setAttr and copy of the public classes", "KinModel2D.make_model", "FitEmissionLines2D.setup_model", "KinProfile.vel, .sigma", "IntensityProfile.int"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
