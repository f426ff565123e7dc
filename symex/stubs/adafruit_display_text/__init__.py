def wrap_text_to_pixels(text, text_width, font):
    return [text]
