def mock_create_noise_model(noise_model_data):
    return None
