from .unitary_cc import uccsd_convert_amplitude_format, uccsd_generator, uccsd_singlet_generator, uccsd_singlet_get_packed_amplitudes, uccsd_singlet_paramsize
