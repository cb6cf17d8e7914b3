from pgvrt import Message  # noqa
